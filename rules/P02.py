"""Atomicity and durability of publishing, decided by an interprocedural dataflow over all paths, including the
exceptional ones (user serialization, parsing and entry construction may throw, and so may every explicit throw), of the
publish, raw publish and head update functions of both persisters: no exceptional exit is reached with any of the
offsets, timestamps, entries, head or published end changed, nor with a line written to the file unless writing it is
what failed; every successful exit has recorded the entry exactly once, has written and flushed it to the file and has
tested the state of the file after that and before the entry or head became visible; a head directive is rewritten only
in place, at the offset remembered for the last line of the file, and is never rewritten once an entry follows it; the
replay records one offset and one timestamp per entry and refuses an incomplete last line."""
import persist
ASSUME=persist.ASSUME
RULES={'failed-publish','write-checked','visible-after-written','head-in-place','index-consecutive','replay-one-per-entry','replay-incomplete-line','replay-head','replay-offset'}
def run(c):
    persist.publish_rules(c,RULES)
    persist.replay_rules(c,RULES)
