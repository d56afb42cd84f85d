"""C13: the update log gets exactly one record per modification."""
import verdictrun


def run(ck):
    ck.rule('Every function which calls a record processor is interpreted once per verdict (NOOP, REMOVE, a value), mode '
            '(writable or not) and logger (set or not). With a logger, a modifying verdict must lead to exactly one log record '
            'of the matching kind, with the key of the record and the value of the processor (before compression), on every '
            'path to success; in file databases it must precede the first modification. NOOP, read-only processing and REMOVE '
            'of a missing record must log nothing. Clear must write one clearing record before it clears, and the native '
            'appending writes one record with the whole new value.')
    verdictrun.go(ck, 'log', [('REMOVE', 40), ('VALUE', 40), ('CLEAR', 12), ('APPEND', 2)])
