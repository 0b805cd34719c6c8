from hca import terms as T
from hca.terms import num, not_
from hca.equiv import equal
from hca.linear import Facts
from hca.pointwise import Pointwise

TECHNIQUE = "element-wise abstract evaluation of the numpy code (one arbitrary array position), compared with the likelihood formula in every edge case"


def binomial(c):
    site = c.where("probability_util", "log_binomial")
    pw = Pointwise()
    a = c.summary("probability_util", "log_binomial", opaque={"log_factorial"}, pointwise=pw)
    b = c.summary("spec_prob", "log_binomial_at", opaque={"log_factorial"})
    m, pr = equal(a.ret, b.ret)
    c.count("cases compared", pr.cases)
    c.ob("each element is the log likelihood of the clamped rate, minus infinity exactly in the impossible cases", site, m is None, m.describe() if m else "")
    c.ob("the arguments are not modified and nothing else is touched", site, not a.world.args, T.show(a.world)[:500])
    for x in pw.bad:
        c.ob("values computed under a mask are stored under that mask", site, False, x)
    for arg, mask, _ in pw.logs:
        f = Facts().assume(mask)
        ok = f.decide(T.eq(arg, num(0))) is False
        c.ob("no logarithm of zero enters the sum (0 ln 0 would give NaN)", site, ok, f"log of {T.show(arg)} taken where {T.show(mask)}")
    c.ob("logarithms are taken", site, len(pw.logs) >= 2, "")


def factorial(c):
    site = c.where("probability_util", "log_factorial")
    for n in list(range(20)) + [None]:
        args = {"n": num(n)} if n is not None else None
        a = c.summary("probability_util", "log_factorial", args=args)
        b = c.summary("spec_prob", "log_factorial", args=args)
        f = Facts([T.ge0(T.sub(T.sym("n", "int"), num(20)))]) if n is None else None
        m, pr = equal(a.ret, b.ret, f)
        c.count("cases compared", pr.cases)
        c.ob("the log factorial is the sum of logarithms below 20 and Stirling's approximation from there", site, m is None, f"n = {n if n is not None else '>= 20'}: {m.describe() if m else ''}")


def check(c):
    binomial(c)
    factorial(c)
