"""C27: the record count follows the verdicts exactly."""
import verdictrun


def run(ck):
    ck.rule('Every function which calls a record processor is interpreted once per verdict, mode and logger. The changes of '
            'num_records_ between the call and the end of the transaction must be: +1 for a value for a missing record, 0 for a '
            'value for an existing one, -1 for REMOVE of an existing one, and none for NOOP, read-only processing and REMOVE of a '
            'missing record. Evictions of the cache database may follow. SkipDBM (counts at synchronization) and StdDBM '
            '(counts by its map) are outside.')
    verdictrun.go(ck, 'count', [('NOOP', 40), ('REMOVE', 40), ('VALUE', 40)])
