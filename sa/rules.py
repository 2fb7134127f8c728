"""Property specific rules, decided on the current tree alone."""
from . import conform, model
from .model import AnalysisBroken

RULES = {}


class Context:
    def __init__(self, ref, cur, prop):
        self.ref, self.cur, self.prop = ref, cur, prop


def rule(minimum=1):
    def deco(fn):
        RULES[fn.__name__] = (fn, minimum)
        return fn
    return deco


def run(name, ctx):
    """-> (number of instances, findings)"""
    if name not in RULES:
        raise AnalysisBroken('no rule ' + name)
    fn, minimum = RULES[name]
    n, found = fn(ctx)
    if n < minimum:
        raise AnalysisBroken('rule %s has %d instances, expected at least %d' % (name, n, minimum))
    return n, found


def finding(key, f, text, line=None):
    return dict(key=key, file=f['file'], line=line or f['line'], func=model.short(f.get('f', f.get('q', ''))), text=text)


TRUTH = {'AND': lambda l, r: l and r, 'OR': lambda l, r: l or r, 'NAND': lambda l, r: not (l and r), 'NOR': lambda l, r: not (l or r)}


def operand(key):
    """which operand's truth a condition is about"""
    if 'isTrue(' in key:
        for o in ('mLHS', 'mRHS'):
            if '$0.' + o in key and '$0.' + ('mRHS' if o == 'mLHS' else 'mLHS') not in key:
                return o
    return None


def boolean_cases(outs):
    """{(operator, left, right): (value, right operand evaluated) or None if it cannot be told}"""
    res = {}
    for name in TRUTH:
        for l in (False, True):
            for r in (False, True):
                got = set()
                for o in outs:
                    t = o['when'].get('$0.mOperation.mType')
                    if t != 'Token::Type::' + name:
                        continue
                    fits = True
                    for k, v in o['when'].items():
                        if k == '$0.mOperation.mType':
                            continue
                        side = operand(k)
                        if side is None or not isinstance(v, bool):
                            got.add(None)
                        elif v != (l if side == 'mLHS' else r):
                            fits = False
                    if fits:
                        v = {'BoolType<bool>(true)': True, 'BoolType<bool>(false)': False}.get(o['set'].get('$1'))
                        got.add((v, any('mRHS' in x for x in o['do'])) if v is not None and o['end'] == 'return' else None)
                res[name, l, r] = got.pop() if len(got) == 1 else None
    return res


@rule(minimum=16)
def truth_table(ctx):
    """for each boolean operator and each pair of truth values of its operands, the value assigned to the result is the one of the
    operator's truth table, and the right operand is evaluated only if the left one does not decide; a case that cannot be read off the
    current function is read off the reference function, to which the current one conforms"""
    name = 'evaluateBooleanBinaryExpression'
    c = conform.Conformance(ctx.ref, ctx.cur, {})
    f = [f for f in ctx.ref.funcs.values() if f['name'] == name and f['f'].endswith('TreeInterpreter::' + name)][0]
    g = ctx.cur.funcs.get(f['id'])
    required = boolean_cases(c.outcomes(ctx.ref, f))
    try:
        cases = boolean_cases(c.outcomes(ctx.cur, g)) if g else {}
    except AnalysisBroken:
        cases = {}
    n, found = 0, []
    for k in sorted(required):
        case = cases.get(k) or required[k]
        if case is None:
            continue
        n += 1
        op, l, r = k
        where = '%s with the operands %s and %s' % (op.lower(), str(l).lower(), str(r).lower())
        if case[0] != TRUTH[op](l, r):
            found.append(finding('truth:%s:%d:%d' % (op, l, r), g or f, '%s yields %s' % (where, str(case[0]).lower())))
        if case[1] and TRUTH[op](l, False) == TRUTH[op](l, True):
            found.append(finding('lazy:%s:%d:%d' % (op, l, r), g or f, '%s evaluates its right operand although the left one decides' % where))
    return n, found
