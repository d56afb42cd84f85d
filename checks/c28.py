"""C28: verdicts of record processors are honoured."""
import verdictrun


def run(ck):
    ck.rule('Every function which calls a record processor is interpreted once per verdict, mode and logger. After NOOP, in the '
            'read-only mode, and after REMOVE for a missing record, the data must not be modified on any path; after REMOVE of '
            'an existing record and after a value, every path to success must modify the data; the result of ProcessFull must '
            'not be dropped in the writable mode.')
    verdictrun.go(ck, 'verdict', [('NOOP', 40), ('REMOVE', 40), ('VALUE', 40)])
