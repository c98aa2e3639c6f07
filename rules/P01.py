"""Order of a stream, decided by an interprocedural path-sensitive dataflow over every instantiation of the publish, raw
publish, head update and replay functions of the file-based and in-memory persisters (blocks/persistence), for both lock
modes: on every path which makes an entry visible, its index is the previous number of entries (compared with it for raw
lines), that number is advanced by exactly one, and its timestamp has been compared, in the same critical section of the
persister's lock, as strictly greater than the current head and is the one recorded, returned and stored as the new head;
the replay at startup accepts an entry only under the same comparisons and derives the end and the head from the last
entry or head directive; nothing else changes the index of entries. Field roles are resolved by type."""
import persist
ASSUME=persist.ASSUME
RULES={'index-consecutive','timestamp-guard','same-timestamp','append-only','returned-position','publish-lock','replay-index','replay-timestamp','replay-end','replay-head'}
def run(c):
    persist.publish_rules(c,RULES)
    persist.read_rules(c,RULES)
    persist.replay_rules(c,RULES)
