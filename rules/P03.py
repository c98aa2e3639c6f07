"""What readers of a stream see, decided by an interprocedural dataflow over every instantiation of the publishing,
range, search, iterator and replay functions of both persisters: an entry becomes visible only after its line, offset and
timestamp are in place, the offset being the file position taken before the line is written; a range is constructed only
with begin < end <= the number of published entries, read before a time range is looked up, and starts at the offset
recorded for its first entry; both ends of a time range are searched inclusively with a strict comparison in the right
direction; an iterator hands out an entry only after its index compared equal to the position of the iterator; the last
published position is the number of entries minus one of a persister known to be non-empty; shared containers are only
read under the lock."""
import persist
ASSUME=persist.ASSUME
RULES={'visible-after-written','offset-of-line','append-only','range-bounds','range-offset','range-inclusive','cursor-position','read-locked','last-published','replay-index','replay-offset','replay-one-per-entry','replay-incomplete-line','write-checked'}
def run(c):
    persist.publish_rules(c,RULES)
    persist.read_rules(c,RULES)
    persist.replay_rules(c,RULES)
