"""T01: storage classes, decided by compile-time witnesses."""
import witness
TECH="compile-time witnesses (static_assert over the type traits and buffer types, type-checked against the current sources)"
NOTE="decided for every listed type on both sides of every boundary; types are samples of an unbounded family, sizes around the cache line exhaustive at the border"
MIN={"T01.unique":40,"T01.line":40,"T01.buffer":25}
def run(c):
    c.rule("T01.unique","the four storage class predicates select exactly the one that applies")
    c.rule("T01.line","in place iff the size does not exceed the cache line")
    c.rule("T01.buffer","the buffer structure selected for the type stores elements in place, or pointers for out-of-line types")
    witness.report(c,"wit_t01")
    for n in(32,64,128): witness.report(c,"wit_t01b",("-DL1D_CACHE_LINE_SIZE=%d"%n,))
