"""Q02 item and test sessions follow the specification's processing model"""

import os
import random
import StringIO
import tempfile
import shutil
import qx
from lib import Family
from q01 import actual, agree, load
import pyslet.qtiv2.core as core
import pyslet.qtiv2.variables as variables
import pyslet.qtiv2.tests as tests
import pyslet.imsqtiv2p1 as qti
import pyslet.html40_19991224 as html
from pyslet.rfc2396 import URIFactory

PROPERTY = 'Q02'
REFUSALS = (core.ProcessingError, ValueError)


class Exit(Exception):
    pass


# --- rules -----------------------------------------------------------------
# a rule is ('if', [(expr, rules), ...], rules or None), ('set', tag, id, expr) or ('exit',)

class VGen(qx.Gen):
    """Generator that may refer to any variable, qualified names included"""

    def vars_of(self, t, card):
        return [n for n, v in self.env['vars'].items() if v[0] == card and (v[1] == t or card == 'r')]


def gen_rules(r, env, kind, depth, g=None):
    g = g or qx.Gen(r, env, .012)
    out = []
    for i in range(r.choice([0, 1, 1, 2, 2, 3, 4])):
        c = r.random()
        if depth > 0 and c < .4:
            arms = []
            for j in range(r.choice([1, 1, 1, 2, 3, 4])):
                arms.append((g.gen('boolean', 's', r.choice([1, 1, 2, 3])), gen_rules(r, env, kind, depth - 1, g)))
            out.append(('if', arms, gen_rules(r, env, kind, depth - 1, g) if r.random() < .5 else None))
        elif c < (.5 if depth < 2 else .42):
            out.append(('exit',))
        else:
            bad = r.random()
            names = sorted(env['decl'])
            if bad < .012:
                names = ['nope', 'numAttempts', 'duration'] + names
                tag = r.choice(['setOutcomeValue'] if kind == 'R' else ['setTemplateValue', 'setCorrectResponse', 'setDefaultValue'])
            elif kind == 'R':
                tag = 'setOutcomeValue'
                names = [n for n in names if env['decl'][n][0] == 'O']
                if env.get('adaptive') and r.random() < .1:
                    names = ['completionStatus']
            else:
                tag = r.choice(['setTemplateValue', 'setTemplateValue', 'setCorrectResponse', 'setDefaultValue'])
                ks = {'setTemplateValue': 'T', 'setCorrectResponse': 'R', 'setDefaultValue': 'RO'}[tag]
                names = [n for n in names if env['decl'][n][0] in ks]
            if not names:
                continue
            n = r.choice(names)
            k, card, t = env['decl'].get(n, ('O', 's', 'identifier'))
            out.append(('set', tag, n, g.gen(t or 'integer', card, r.choice([0, 1, 1, 2, 3]))))
    return out


def rules_xml(rules, kind, r):
    p = {'R': u'response', 'T': u'template'}[kind]
    s = u''
    for x in rules:
        if x[0] == 'exit':
            s += {'R': u'<exitResponse/>', 'T': u'<exitTemplate/>'}[kind]
        elif x[0] == 'set':
            s += u'<%s identifier="%s">%s</%s>' % (x[1], x[2], qx.xml_of(x[3], r), x[1])
        else:
            s += u'<%sCondition>' % p
            for i, (e, sub) in enumerate(x[1]):
                tag = p + (u'If' if i == 0 else u'ElseIf')
                s += u'<%s>%s%s</%s>' % (tag, qx.xml_of(e, r), rules_xml(sub, kind, r), tag)
            if x[2] is not None:
                s += u'<%sElse>%s</%sElse>' % (p, rules_xml(x[2], kind, r), p)
            s += u'</%sCondition>' % p
    return s


def truth(e, env):
    v = qx.ev(e, env)
    if v[1] not in (None, 'boolean') or v[0] not in (None, 's'):
        raise qx.Refuse('condition')
    return bool(v[2])


def fit(v, card, base):
    """v as assigned to a variable of this type"""
    if v[0] not in (None, card) or v[1] not in (None, base):
        raise qx.Refuse('assignment')
    return (card, base, v[2])


def run_rules(m, rules, st):
    for x in rules:
        if x[0] == 'exit':
            m.count('exits')
            raise Exit()
        if x[0] == 'set':
            v = qx.ev(x[3], st.env)
            st.assign(x[1], x[2], v)
            m.count('set_' + x[1])
            continue
        for i, (e, sub) in enumerate(x[1]):
            if truth(e, st.env):
                m.count('arm_taken' if i else 'if_taken')
                run_rules(m, sub, st)
                break
        else:
            if x[2] is not None:
                m.count('else_taken')
                run_rules(m, x[2], st)


# --- items -----------------------------------------------------------------

class Item(object):

    """A random item: its xml and what the model needs"""

    def __init__(self, r, nvars=None, ident=u't'):
        decl, env = qx.declare(r, r.randint(3, 8) if nvars is None else nvars, 'RROOT')
        self.adaptive = r.random() < .4
        env['adaptive'] = self.adaptive
        self.choices = []
        extra = u''
        for n, mode in ((u'PICK', 's'), (u'MANY', 'm')):
            if r.random() < .5:
                card, t = mode, 'identifier'
                ids = r.sample([i for i in qx.IDS if '.' not in i], r.randint(1, 5))
                self.choices.append((n, card, ids, r.random() < .5))
                d = (card, t, None)
                if r.random() < .5:
                    d = (card, t, ids[0] if card == 's' else ids[:r.randint(1, len(ids))])
                env['decl'][n] = ('R', card, t)
                env['defaults'][n] = d
                env['corrects'][n] = (card, t, None)
                env['vars'][n] = d
                extra += u'<responseDeclaration identifier="%s" cardinality="%s" baseType="identifier">%s</responseDeclaration>' % (
                    n, qx.CARDS[card], u'' if d[2] is None else u'<defaultValue>%s</defaultValue>' % qx.values_xml(d, r))
        self.env = env
        # type information only: values do not matter to the generator
        genv = dict(env)
        genv['vars'] = dict(env['vars'])
        if r.random() < .3:
            genv['vars']['numAttempts'] = ('s', 'integer', 0)
            genv['vars']['completionStatus'] = ('s', 'identifier', None)
        self.T = gen_rules(r, genv, 'T', 2) if r.random() < .7 else None
        self.R = gen_rules(r, genv, 'R', 3) if r.random() < .9 else None
        # declarations keep the order response, outcome, template
        i = decl.find(u'<outcomeDeclaration')
        if i < 0:
            i = decl.find(u'<templateDeclaration')
        if i < 0:
            i = len(decl)
        decl = decl[:i] + extra + decl[i:]
        src = (qx.HEAD % (self.adaptive and 'true' or 'false')).replace(u'identifier="t"', u'identifier="%s"' % ident) + decl
        if self.T:
            src += u'<templateProcessing>%s</templateProcessing>' % rules_xml(self.T, 'T', r)
        if self.choices or r.random() < .5:
            src += u'<itemBody><p>q</p>'
            for n, card, ids, shuffle in self.choices:
                src += u'<choiceInteraction responseIdentifier="%s" shuffle="%s" maxChoices="%d">%s</choiceInteraction>' % (
                    n, 'true' if shuffle else 'false', 1 if card == 's' else r.choice([0, 2, 3]),
                    (u'<prompt>P</prompt>' if r.random() < .5 else u'') + u''.join(u'<simpleChoice identifier="%s">c <em>x</em></simpleChoice>' % i for i in ids))
            src += u'</itemBody>'
        if self.R is not None:
            src += u'<responseProcessing>%s</responseProcessing>' % rules_xml(self.R, 'R', r)
        self.src = src + u'</assessmentItem>'

    def state(self):
        return IState(self)


class IState(object):

    """The model of one item session"""

    def __init__(self, item):
        self.item = item
        e = item.env
        self.env = dict(e)
        self.env['defaults'] = dict(e['defaults'])
        self.env['corrects'] = dict(e['corrects'])
        v = self.env['vars'] = {}
        for n, (k, card, t) in e['decl'].items():
            v[n] = e['tdefaults'][n] if k == 'T' else (card, t, None)
        v['numAttempts'] = ('s', 'integer', None)
        v['duration'] = ('s', 'duration', None)
        v['completionStatus'] = ('s', 'identifier', None)
        self.saved = {}

    def assign(self, tag, n, v):
        d = self.item.env['decl'].get(n)
        if tag == 'setOutcomeValue':
            if n == 'completionStatus':
                d = ('O', 's', 'identifier')
            if d is None or d[0] != 'O':
                raise qx.Refuse('not an outcome')
            self.env['vars'][n] = fit(v, d[1], d[2])
        elif tag == 'setTemplateValue':
            if d is None or d[0] != 'T':
                raise qx.Refuse('not a template')
            self.env['vars'][n] = fit(v, d[1], d[2])
        elif tag == 'setCorrectResponse':
            if d is None or d[0] != 'R':
                raise qx.Refuse('not a response')
            self.env['corrects'][n] = fit(v, d[1], d[2])
        else:
            if d is None or d[0] == 'T':
                raise qx.Refuse('not a response or outcome')
            self.env['defaults'][n] = fit(v, d[1], d[2])

    def run(self, m, rules):
        try:
            run_rules(m, rules or [], self)
        except Exit:
            pass

    def reset(self):
        for n, (k, card, t) in self.item.env['decl'].items():
            if k == 'O':
                v = self.env['defaults'][n]
                if v[2] is None and card == 's' and t in ('integer', 'float'):
                    v = (card, t, 0 if t == 'integer' else 0.0)
                self.env['vars'][n] = v

    def begin(self):
        v = self.env['vars']
        v['completionStatus'] = ('s', 'identifier', u'not_attempted')
        v['numAttempts'] = ('s', 'integer', 0)
        v['duration'] = ('s', 'duration', 0.0)
        self.reset()

    def attempt(self):
        v = self.env['vars']
        n = v['numAttempts'][2] + 1
        v['numAttempts'] = ('s', 'integer', n)
        if n == 1:
            for x, (k, card, t) in self.item.env['decl'].items():
                if k == 'R':
                    v[x] = self.env['defaults'][x]
            v['completionStatus'] = ('s', 'identifier', u'unknown')

    def submit(self, m):
        for n, v in self.saved.items():
            self.env['vars'][n] = v
        self.saved = {}
        if not self.item.adaptive:
            self.reset()
        self.run(m, self.item.R)

    def inputs(self, prefix=u''):
        """The controls of the rendered item"""
        out = []
        for n, card, ids, shuffle in self.item.choices:
            v = self.saved.get(n, self.env['vars'][n])
            on = qx.vlist(v)
            for i in ids:
                out.append((prefix + n, i, 'radio' if card == 's' else 'checkbox', i in on))
        return sorted(out)

    def compare(self, m, state, when, ctx, prefix=u''):
        vs = dict(self.env['vars'])
        for n, v in self.env['defaults'].items():
            vs[n + '.DEFAULT'] = v
        for n, v in self.env['corrects'].items():
            vs[n + '.CORRECT'] = v
        for n in sorted(vs):
            kind = n if n in ('numAttempts', 'duration', 'completionStatus') else n.split('.')[1] if '.' in n else self.item.env['decl'][n][0]
            try:
                got = actual(state[prefix + n])
            except KeyError:
                m.violate('missing variable', '%s %s' % (n, ctx))
                continue
            m.check(agree(got, vs[n]), 'value after %s:%s' % (when, kind), n, 'got', got, 'want', vs[n], ctx)
            m.count('variables')


def controls(e, out):
    """(inputs, buttons) of a rendered form"""
    if isinstance(e, html.Input):
        out[0].append((e.name, e.value, html.InputType.EncodeValue(e.type), bool(e.checked)))
    elif isinstance(e, html.Button):
        out[1].append((e.name, e.value, bool(e.disabled)))
    for c in e.GetChildren():
        if not isinstance(c, basestring):
            controls(c, out)
    return out


def submission(r, ist, prefix=u'', err=.04):
    """(params, model update or None when they must be refused)"""
    params = {}
    update = {}
    bad = r.random() < err
    names = sorted(n for n, (k, card, t) in ist.item.env['decl'].items() if k == 'R' and card != 'r')
    for n in names:
        if r.random() < .35:
            continue
        k, card, t = ist.item.env['decl'][n]
        v = qx.rvalue(r, card, t)
        pick = dict((c[0], c[2]) for c in ist.item.choices).get(n)
        if pick:
            v = (card, t, r.choice(pick) if card == 's' else r.sample(pick, r.randint(1, len(pick))))
        if v[2] is None:
            continue
        if card == 's':
            params[prefix + n] = qx.atext(t, v[2], r)
        elif card == 'm':
            xs = [qx.atext(t, x, r) for x in v[2]]
            params[prefix + n] = xs[0] if len(xs) == 1 and r.random() < .5 else xs
        elif t == 'identifier' and r.random() < .5:
            if len(set(v[2])) < len(v[2]) or [x for x in v[2] if '.' in x]:
                continue
            ranks = sorted(r.sample(range(1, 20), len(v[2])))
            for x, k in zip(v[2], ranks):
                params[prefix + n + u'.' + x] = unicode(k)
        else:
            ranks = sorted(r.sample(range(1, 20), len(v[2])))
            for x, k in zip(v[2], ranks):
                params[prefix + n + u'.%d' % k] = qx.atext(t, x, r)
        update[n] = v
    if bad:
        k = r.randint(0, 4)
        ss = [n for n in names if ist.item.env['decl'][n][1] == 's' and ist.item.env['decl'][n][2] in ('integer', 'float', 'boolean', 'point', 'identifier')]
        oo = [n for n in names if ist.item.env['decl'][n][1] == 'o']
        others = [n for n, d in sorted(ist.item.env['decl'].items()) if d[0] != 'R']
        if k == 0:
            params[prefix + r.choice([u'nope', u'numAttempts', u'completionStatus', u'duration'])] = u'1'
        elif k == 1 and others:
            params[prefix + r.choice(others)] = u'1'
        elif k == 2 and ss:
            params[prefix + r.choice(ss)] = u'! !'
        elif k == 3 and ss:
            params[prefix + r.choice(ss)] = [u'1', u'1']
        elif k == 4 and oo:
            params[prefix + r.choice(oo) + u'.1x$'] = u'1'
        else:
            return params, update
        return params, None
    return params, update


# --- family: item programs ---------------------------------------------------

def model_step(m, f, *args):
    """'ok', 'refused' or None (not settled)"""
    try:
        f(*args)
        return 'ok'
    except qx.Refuse, e:
        model_step.why = e
        return 'refused'
    except qx.Unknown:
        m.count('unknown')
        return None


def play(m, r, item, doc, tag):
    """One candidate's session on the item, yields between events"""
    ist = item.state()
    state = variables.ItemSessionState(doc.root)
    ctx = item.src
    ist.compare(m, state, 'construction', ctx)
    yield
    ok = [None]

    def step(what, model, real):
        want = model_step(m, *model)
        if want is None:
            return False
        try:
            ok[0] = real[0](*real[1:])
        except REFUSALS, e:
            m.check(want == 'refused', 'refused:' + what, repr(e), ctx)
            m.count('refused')
            if want == 'refused':
                ist.compare(m, state, 'refused ' + what, ctx)
            return False
        except Exception, e:
            m.violate('crash:' + what, '%r %s' % (e, ctx))
            return False
        if not m.check(want == 'ok', 'not refused:' + what, getattr(model_step, 'why', ''), ctx):
            return False
        ist.compare(m, state, what, ctx)
        return True

    if r.random() < .95:
        if not step('SelectClone', (ist.run, m, item.T), (state.SelectClone,)):
            return
        yield
    if not step('BeginSession', (ist.begin,), (state.BeginSession,)):
        return
    yield
    for a in range(r.randint(1, 4)):
        if not step('BeginAttempt', (ist.attempt,), (state.BeginAttempt,)):
            return
        m.eq(sorted(controls(ok[0], ([], []))[0]), ist.inputs(), 'controls after BeginAttempt', ctx)
        yield
        for j in range(r.choice([0, 0, 1, 2]) + 1):
            params, update = submission(r, ist)
            last = j == 0 and r.random() < .3
            if update is None:
                m.raises(variables.BadSessionParams, 'bad submission', r.choice([state.SaveSession, state.SubmitSession]), params, ctx=(params, ctx))
                m.count('bad_submissions')
                ist.compare(m, state, 'bad submission', ctx)
                return

            def save():
                ist.saved.update(update)
            if not step('SaveSession', (save,), (state.SaveSession, params)):
                return
            m.eq(sorted(controls(ok[0], ([], []))[0]), ist.inputs(), 'controls after SaveSession', params, ctx)
            m.count('saves')
            yield
            if last:
                break
        params, update = submission(r, ist, err=0)
        ist.saved.update(update)
        if not step('SubmitSession', (ist.submit, m), (state.SubmitSession, params)):
            return
        m.eq(sorted(controls(ok[0], ([], []))[0]), ist.inputs(), 'controls after SubmitSession', params, ctx)
        m.count('submits')
        m.count('adaptive_submits' if item.adaptive else 'reset_submits')
        yield
    m.count('sessions_done')
    for n, (k, card, t) in item.env['decl'].items():
        m.eq((state.IsResponse(n), state.IsOutcome(n), state.IsTemplate(n)), (k == 'R', k == 'O', k == 'T'), 'kind of variable', n, ctx)
    m.eq((state.IsResponse('numAttempts'), state.IsResponse('duration'), state.IsOutcome('completionStatus'), state.IsTemplate('nope')), (True, True, True, False), 'kind of built-in', ctx)


def interleave(r, players):
    while players:
        p = r.choice(players)
        try:
            next(p)
        except StopIteration:
            players.remove(p)


def fam_program(m, r):
    item = Item(r)
    m.key(item.src)
    m.sample(item.src)
    doc = load(item.src)
    interleave(r, [play(m, r, item, doc, i) for i in range(r.choice([1, 1, 2, 3]))])


# --- family: forms -----------------------------------------------------------

class Node(object):

    def __init__(self, ident, kids=None):
        self.id = ident
        self.kids = kids
        self.fixed = self.required = self.shuffle = self.repl = False
        self.visible = True
        self.keep = True
        self.select = None
        self.pre = []
        self.branch = []
        self.tdef = []
        self.href = None

    def all(self):
        yield self
        for k in self.kids or []:
            for n in k.all():
                yield n

    def xml(self, r):
        a = u' identifier="%s"' % self.id
        if self.required or r.random() < .2:
            a += u' required="%s"' % (self.required and r.choice(['true', '1']) or 'false')
        if self.fixed or r.random() < .2:
            a += u' fixed="%s"' % (self.fixed and r.choice(['true', '1']) or 'false')
        pre = u''.join(u'<preCondition>%s</preCondition>' % qx.xml_of(e, r) for e in self.pre)
        pre += u''.join(u'<branchRule target="%s">%s</branchRule>' % (t, qx.xml_of(e, r)) for e, t in self.branch)
        if self.kids is None:
            return u'<assessmentItemRef%s href="%s">%s%s</assessmentItemRef>' % (a, self.href or 'x.xml', pre, u''.join(
                u'<templateDefault templateIdentifier="%s">%s</templateDefault>' % (n, qx.xml_of(e, r)) for n, e in self.tdef))
        a += u' title="s" visible="%s"' % ('true' if self.visible else 'false')
        if not self.keep or r.random() < .3:
            a += u' keepTogether="%s"' % ('true' if self.keep else 'false')
        s = u'<assessmentSection%s>%s' % (a, pre)
        if self.select is not None:
            s += u'<selection select="%d"%s/>' % (self.select, u' withReplacement="true"' if self.repl else u'')
        if self.shuffle or r.random() < .1:
            s += u'<ordering shuffle="%s"/>' % ('true' if self.shuffle else 'false')
        return s + u''.join(k.xml(r) for k in self.kids) + u'</assessmentSection>'


def gen_section(r, ids, depth, wild=True):
    s = Node(u'S%d' % next(ids), [])
    for i in range(r.choice([0, 1, 2, 2, 3, 3, 4, 5] if wild else [1, 2, 2, 3])):
        if depth > 0 and r.random() < .35:
            k = gen_section(r, ids, depth - 1, wild)
        else:
            k = Node(u'Q%d' % next(ids))
        k.fixed = r.random() < .2
        k.required = r.random() < .15
        s.kids.append(k)
    s.visible = r.random() < .5
    s.keep = r.random() < .5
    s.shuffle = r.random() < .6
    if r.random() < .5:
        n = len(s.kids)
        s.select = r.randint(0, n) if r.random() < .97 else n + r.randint(1, 2)
        if not any(mixing(s, k) for k in s.kids) and r.random() < .3:
            s.repl = True
            s.select = r.randint(0, n + 3)
    return s


def counter():
    i = 0
    while True:
        i += 1
        yield i


def mixing(s, k):
    return s.shuffle and not k.fixed and k.kids is not None and not k.visible and not k.keep


def target(s):
    return len(s.kids) if s.select is None else s.select


def refusal(s, flat=False):
    """Whether selecting from s must ('must'), may or cannot be refused"""
    n = target(s)
    req = [k for k in s.kids if k.required]
    if len(req) > n or (n > len(s.kids) and not s.repl) or (n > len(req) and not s.kids):
        return 'must'
    res = 'no'
    for k in s.kids:
        sure = k.required or (not s.repl and n == len(s.kids))
        if n == 0:
            continue
        what = 'no'
        if mixing(s, k):
            what = refusal(k, True)
            for g in flat_kids(k):
                if g.fixed and what == 'no':
                    what = 'may'
                if not flat and g.kids is not None and refusal(g) != 'no' and what == 'no':
                    what = 'may'
        elif k.kids is not None:
            if flat:
                continue
            what = refusal(k)
        if what == 'must' and sure:
            return 'must'
        if what != 'no':
            res = 'may'
    return res


def flat_kids(s):
    """The children an unexpanded selection of s may contribute"""
    for k in s.kids:
        if mixing(s, k):
            for g in flat_kids(k):
                yield g
        else:
            yield k


def parse(comps, nodes):
    """The component list as nested [(id, children or None)]; None when malformed"""
    stack = [[]]
    names = []
    for c in comps:
        if c[0] == u'-':
            if not names or names[-1] != c[1:]:
                return None
            names.pop()
            done = stack.pop()
            stack[-1].append((c[1:], done))
        elif c not in nodes:
            return None
        elif nodes[c].kids is None:
            stack[-1].append((c, None))
        else:
            names.append(c)
            stack.append([])
    return None if names else stack[0]


def flat_ok(s, counts):
    """Whether a multiset of ids is one selection of s, unexpanded"""
    counts = dict(counts)
    total = lo = 0
    for k in s.kids:
        if mixing(s, k):
            mine = {}
            for g in flat_kids(k):
                if counts.get(g.id):
                    mine[g.id] = counts.pop(g.id)
            if mine:
                if not flat_ok(k, mine):
                    return False
                total += 1
            elif flat_ok(k, {}):
                lo += 1
                if k.required:
                    total += 1
                    lo -= 1
            elif k.required:
                return False
        else:
            c = counts.pop(k.id, 0)
            if (k.required and not c) or (c > 1 and not s.repl):
                return False
            total += c
    return not counts and total <= target(s) <= total + lo


def valid(s, seq, nodes, m):
    """Problems with seq as a selection from s"""
    counts = {}
    for c, sub in seq:
        counts[c] = counts.get(c, 0) + 1
    if not flat_ok(s, counts):
        return 'selection of %s: %r' % (s.id, counts)
    for c, sub in seq:
        if sub is not None:
            p = valid(nodes[c], sub, nodes, m)
            if p:
                return p
    order = [c for c, sub in seq]
    where = dict((k.id, i) for i, k in enumerate(s.kids))
    if not s.shuffle:
        at = [where[c] for c in order]
        if at != sorted(at):
            return 'order of %s: %r' % (s.id, order)
        return None
    # slots of the selection in order: fixed children stay where they are
    slots = []
    for k in s.kids:
        if mixing(s, k):
            if [g for g in flat_kids(k) if counts.get(g.id)]:
                slots.append(None)
        else:
            slots.extend([k.id if k.fixed else None] * counts.get(k.id, 0))
    fixed = set(k.id for k in s.kids if k.fixed)
    mixed = any(mixing(s, k) for k in s.kids)

    def runs(xs):
        res = [0]
        names = []
        for x in xs:
            if x in fixed:
                names.append(x)
                res.append(0)
            else:
                res[-1] += 1
        return names, res
    a, b = runs(order)
    c, d = runs(slots)
    if a != c:
        return 'fixed children of %s: %r' % (s.id, order)
    for x, y in zip(b, d):
        if (x < y or (y == 0 and x)) if mixed else x != y:
            return 'fixed positions in %s: %r of %r' % (s.id, order, slots)
    m.count('shuffled_sections')
    if fixed & set(order):
        m.count('fixed_kept')
    if mixed:
        m.count('mixed_sections')
    return None


def test_xml(parts, r, decl=u''):
    s = u'<?xml version="1.0" encoding="utf-8"?>\n<assessmentTest xmlns="http://www.imsglobal.org/xsd/imsqti_v2p1" identifier="t" title="t">' + decl
    for p in parts:
        s += u'<testPart identifier="%s" navigationMode="linear" submissionMode="individual">' % p.id
        s += u''.join(u'<preCondition>%s</preCondition>' % qx.xml_of(e, r) for e in p.pre)
        s += u''.join(u'<branchRule target="%s">%s</branchRule>' % (t, qx.xml_of(e, r)) for e, t in p.branch)
        s += u''.join(k.xml(r) for k in p.kids) + u'</testPart>'
    return s + u'</assessmentTest>'


def fam_form(m, r):
    random.seed(r.randint(0, 1 << 30))
    ids = counter()
    parts = []
    for i in range(r.choice([1, 1, 2, 3])):
        parts.append(Node(u'P%d' % next(ids), [gen_section(r, ids, r.choice([1, 2, 3])) for j in range(r.choice([1, 1, 2]))]))
    nodes = {}
    for p in parts:
        for n in p.all():
            nodes[n.id] = n
    src = test_xml(parts, r)
    m.key(src)
    m.sample(src)
    doc = load(src)
    m.require(isinstance(doc.root, tests.AssessmentTest), 'not a test', src)
    expect = 'no'
    for p in parts:
        for s in p.kids:
            f = refusal(s)
            if f == 'must' or expect == 'no':
                expect = f if expect != 'must' else expect
    seen = set()
    for i in range(8):
        try:
            form = tests.TestForm(doc.root)
        except core.SelectionError:
            m.check(expect != 'no', 'form refused', src)
            m.count('selection_errors')
            continue
        except Exception, e:
            m.violate('crash:form', '%r %s' % (e, src))
            return
        if not m.check(expect != 'must', 'form not refused', list(form), src):
            return
        comps = list(form)
        m.eq(comps[:1], [u''], 'first component', src)
        tree = parse(comps[1:], nodes)
        if not m.check(tree is not None, 'nesting of the form', comps, src):
            return
        if not m.check([c for c, sub in tree] == [p.id for p in parts], 'test parts of the form', comps, src):
            return
        for p, (c, sub) in zip(parts, tree):
            if not m.check([x for x, y in sub] == [s.id for s in p.kids], 'sections of a part', comps, src):
                return
            for s, (x, y) in zip(p.kids, sub):
                bad = valid(s, y, nodes, m)
                if not m.check(not bad, 'form', bad, comps, src):
                    return
        m.count('forms')
        m.count('form_components', len(comps))
        seen.add(tuple(comps))
        m.eq((len(form), [form[k] for k in range(len(comps))]), (len(comps), comps), 'sequence')
        for c in set(comps) | set([u'nope']):
            at = [k for k, x in enumerate(comps) if x == c]
            m.eq(list(form.find(c)), at, 'find', c, comps)
            if at:
                m.eq(form.index(c), at[0], 'index', c, comps)
    m.count('distinct_forms', len(seen))
    if len(seen) > 1:
        m.count('varied_tests')


def fam_spread(m, r):
    """every permitted choice and order turns up"""
    random.seed(r.randint(0, 1 << 30))
    n = r.randint(2, 4)
    s = Node(u'S', [Node(u'Q%d' % i) for i in range(n)])
    s.shuffle = r.random() < .7
    mode = r.choice(['plain', 'select', 'repl', 'mix'])
    names = [k.id for k in s.kids]
    if mode == 'select':
        s.select = r.randint(1, n)
    elif mode == 'repl':
        s.select = r.randint(1, 3)
        s.repl = True
    elif mode == 'mix':
        s.shuffle = True
        sub = Node(u'X', [Node(u'Y1'), Node(u'Y2')])
        sub.visible = sub.keep = False
        s.kids.insert(r.randint(0, n), sub)
        names += [u'Y1', u'Y2']
    src = test_xml([Node(u'P', [s])], r)
    m.key(src)
    doc = load(src)
    got = {}
    for i in range(120 if n < 4 and mode != 'mix' else 220):
        comps = tuple(c for c in list(tests.TestForm(doc.root))[3:-2])
        got[comps] = got.get(comps, 0) + 1
        m.count('forms')
    for c in got:
        m.check(all(x in names for x in c), 'stray', c, src)
    # every child at every position it may take
    size = len(list(got)[0])
    for i in range(size):
        for x in names:
            if s.shuffle or (s.repl and size == 1):
                m.check(any(c[i] == x for c in got), 'position never taken', i, x, sorted(got), src)
                m.count('positions')
    if not s.shuffle and s.select and not s.repl:
        # any subset, in order
        import itertools
        want = set(itertools.combinations(names, size))
        m.check(set(got) == want, 'selections', sorted(got), src)
        m.count('positions', len(want))
    if s.shuffle and size == n and n == 3 and mode == 'plain':
        m.eq(len(got), 6, 'orders', src)
    if s.repl and size > 1:
        m.check(any(len(set(c)) < size for c in got), 'replacement never repeats', sorted(got), src)
        m.count('repeats')


# --- family: test sessions ----------------------------------------------------

class Clock(object):

    def __init__(self):
        self.t = 1000000.0

    def time(self):
        return self.t


class TModel(object):

    """The model of a test session"""

    def __init__(self, comps, nodes, parts, items, decl, clock):
        self.comps = comps
        self.nodes = nodes
        self.items = items
        self.decl = decl
        self.clock = clock
        self.last = clock.t
        self.top = {'duration': ('s', 'duration', None)}
        for n, d in decl.items():
            self.top[n] = (d[0], d[1], None)
        self.ns = {}
        self.close = {}
        stack = []
        self.parents = {}
        for i, c in enumerate(comps):
            if i == 0:
                continue
            if c[0] == u'-':
                j = stack.pop()
                self.close[j] = i
                continue
            self.parents[i] = list(stack)
            if nodes[c].kids is None:
                self.ns[i] = items[nodes[c].href].state()
            else:
                self.ns[i] = {'duration': ('s', 'duration', None)}
                stack.append(i)
        self.cur = 0

    def env(self):
        vs = dict(self.top)
        seen = set()
        for i in sorted(self.ns):
            c = self.comps[i]
            if c in seen:
                continue
            seen.add(c)
            ns = self.ns[i]
            src = ns if isinstance(ns, dict) else ns.env['vars']
            for n, v in src.items():
                vs[c + u'.' + n] = v
        return {'vars': vs, 'templates': set(), 'defaults': {}, 'corrects': {}, 'maps': {}, 'areas': {}, 'patterns': qx.PATTERNS}

    def branch(self, m, i, node):
        """The next position once the component opened at i is over"""
        end = self.close.get(i, i)
        for e, t in node.branch:
            if truth(e, self.env()):
                m.count('branch_' + (t if t.startswith('EXIT') else 'target'))
                if t == u'EXIT_TEST':
                    return len(self.comps)
                if t == u'EXIT_SECTION':
                    return self.close[self.parents[i][-1]] + 1
                if t == u'EXIT_TESTPART':
                    return self.close[self.parents[i][0]] + 1
                for j in range(end + 1, len(self.comps)):
                    if self.comps[j] == t:
                        return j
                raise qx.Unknown('backward branch')
        return end + 1

    def walk(self, m):
        if self.cur is None:
            return
        i = 1 if self.cur == 0 else self.branch(m, self.cur, self.nodes[self.comps[self.cur]])
        opened = dict((b, a) for a, b in self.close.items())
        while True:
            if i >= len(self.comps):
                self.cur = None
                m.count('finished')
                return
            c = self.comps[i]
            if c[0] == u'-':
                i = self.branch(m, opened[i], self.nodes[c[1:]])
                continue
            n = self.nodes[c]
            ok = True
            for e in n.pre:
                if not truth(e, self.env()):
                    ok = False
                    break
            if not ok:
                m.count('skipped_item' if n.kids is None else 'skipped_part' if not self.parents[i] else 'skipped_section')
                i = self.close.get(i, i) + 1
                continue
            if n.kids is not None:
                i += 1
                continue
            st = self.ns[i]
            for t, e in n.tdef:
                v = qx.ev(e, self.env())
                d = st.item.env['decl'].get(t)
                if d is None or d[0] != 'T':
                    raise qx.Refuse('template default')
                st.env['vars'][t] = fit(v, d[1], d[2])
                m.count('template_defaults')
            st.run(m, st.item.T)
            st.begin()
            self.cur = i
            return

    def tick(self):
        dt = self.clock.t - self.last
        self.last = self.clock.t
        return dt

    def present(self):
        if self.cur:
            self.ns[self.cur].attempt()

    def start(self, m):
        self.tick()
        for n, (card, t, d) in self.decl.items():
            v = (card, t, d)
            if d is None and card == 's' and t in ('integer', 'float'):
                v = (card, t, 0 if t == 'integer' else 0.0)
            self.top[n] = v
        self.top['duration'] = ('s', 'duration', 0.0)
        self.walk(m)
        self.present()

    def spend(self):
        dt = self.tick()
        if self.cur:
            v = self.ns[self.cur].env['vars']
            v['duration'] = ('s', 'duration', v['duration'][2] + dt)
            for i in self.parents[self.cur]:
                d = self.ns[i]['duration'][2]
                self.ns[i]['duration'] = ('s', 'duration', (d or 0.0) + dt)
            self.top['duration'] = ('s', 'duration', self.top['duration'][2] + dt)

    def save(self, m, update):
        self.spend()
        if self.cur:
            self.ns[self.cur].saved.update(update)

    def submit(self, m, update):
        self.spend()
        if self.cur:
            self.ns[self.cur].saved.update(update)
            self.ns[self.cur].submit(m)
            self.walk(m)
        self.present()

    def compare(self, m, s, when, ctx):
        if not m.eq(s.cQuestion or 0, self.cur or 0, 'question after ' + when, self.comps, ctx):
            return False
        for n, v in self.env()['vars'].items():
            try:
                got = actual(s[n])
            except KeyError:
                m.violate('missing variable', '%s %s' % (n, ctx))
                continue
            kind = 'duration' if n.endswith('duration') else 'test' if '.' not in n else 'item'
            m.check(agree(got, v), 'test value after %s:%s' % (when, kind), n, 'got', got, 'want', v, ctx)
            m.count('variables')
        if self.cur:
            # the instance on display, which names of the test need not reach
            self.ns[self.cur].compare(m, s.namespace[self.cur], 'test ' + when, ctx)
            q = s.GetCurrentQuestion()
            m.eq(q.identifier, self.comps[self.cur], 'current question', ctx)
            m.eq(s.GetCurrentTestPart().identifier, self.comps[self.parents[self.cur][0]], 'current part', ctx)
        elif self.cur is None:
            m.eq((s.GetCurrentQuestion(), s.GetCurrentTestPart()), (None, None), 'finished', ctx)
        return True


def check_form(m, model, s, div, keys, ctx):
    ins, buttons = controls(div, ([], []))
    want = model.ns[model.cur].inputs(model.comps[model.cur] + u'.') if model.cur else []
    m.eq(sorted(ins), want, 'controls of the test form', ctx)
    m.count('controls', len(ins))
    if model.cur:
        m.eq(sorted(buttons), [(u'SAVE', s.key, False), (u'SUBMIT', s.key, False)], 'buttons', ctx)
    else:
        m.eq(sorted(buttons), [(u'SAVE', s.key, True)], 'buttons at the end', ctx)
    m.check(s.key not in keys, 'key reused', s.key, ctx)
    keys.append(s.key)


def snapshot(s):
    return [sorted((n, repr(actual(ns[n]))) for n in ns) for ns in s.namespace if ns is not None], s.cQuestion, s.key, s.t


def sit(m, r, doc, nodes, parts, items, decl, clock, ctx):
    """A candidate takes the test"""
    form = tests.TestForm(doc.root)
    s = variables.TestSessionState(form)
    model = TModel(list(form), nodes, parts, items, decl, clock)
    keys = [s.key]
    model.compare(m, s, 'construction', ctx)
    names = list(s)
    m.eq(len(s), len(names), 'length', ctx)
    m.check(all(n in s for n in names), 'names', names, ctx)
    m.check(not [n for n in (u'nope', u'nope.x', u'S1.nope', u'Q1.nope', u'duration.x') if n in s], 'undeclared', names, ctx)
    yield
    first = True
    for step in range(40):
        clock.t += r.choice([0.0, 0.0, .25, .5, 1.0, 7.75])
        c = r.random()
        if c < .12:
            before = snapshot(s)
            old = [k for k in keys if k != s.key]
            if old and r.random() < .6:
                k, e = r.choice(old), variables.SessionKeyExpired
            else:
                k, e = r.choice([u'', u'x' * 56, s.key[:-1], s.key + u'0', s.key.upper() + u'Z']), variables.SessionKeyMismatch
            f = r.choice([lambda: s.BeginSession(k), lambda: s.SaveSession(k, {}), lambda: s.SubmitSession(k, {}), lambda: s.HandleEvent({'SUBMIT': k}), lambda: s.HandleEvent({'SAVE': k})])
            m.raises(e, 'wrong key', f, ctx=ctx)
            m.eq(snapshot(s), before, 'state changed by a wrong key', ctx)
            m.count('wrong_keys')
            continue
        if c < .15:
            before = snapshot(s)
            m.raises(variables.SessionActionMissing, 'no action', s.HandleEvent, {u'x': u'y'}, ctx=ctx)
            m.eq(snapshot(s), before, 'state changed by a missing action', ctx)
            continue
        update = {}
        params = {}
        if first:
            what = 'BeginSession'
            mf = (model.start, m)
            rf = (s.BeginSession, s.key)
        else:
            what = r.choice(['SaveSession', 'SubmitSession', 'SubmitSession'])
            if model.cur:
                params, update = submission(r, model.ns[model.cur], model.comps[model.cur] + u'.', 0)
            if r.random() < .3:
                params[u'Zz.PICK'] = u'A'
            mf = (model.save if what == 'SaveSession' else model.submit, m, update)
            if r.random() < .5:
                params[what[:-7].upper()] = s.key
                rf = (s.HandleEvent, params)
            else:
                rf = (s.SaveSession if what == 'SaveSession' else s.SubmitSession, s.key, params)
        first = False
        was = model.cur
        want = model_step(m, *mf)
        if want is None:
            return
        prev = s.key
        try:
            div = rf[0](*rf[1:])
        except REFUSALS, e:
            m.check(want == 'refused', 'test refused:' + what, repr(e), ctx)
            m.count('refused')
            return
        except Exception, e:
            m.violate('crash in the test:' + what, '%r %s' % (e, ctx))
            return
        if not m.check(want == 'ok', 'test not refused:' + what, getattr(model_step, 'why', ''), ctx):
            return
        m.eq(s.prevKey, prev, 'previous key', ctx)
        m.count(what)
        if not model.compare(m, s, what, ctx):
            return
        check_form(m, model, s, div, keys, ctx)
        m.count('steps')
        if model.cur is None and was is None and r.random() < .5:
            break
        yield
    for i, ns in model.ns.items():
        if isinstance(ns, IState) and model.comps.index(model.comps[i]) == i:
            for n, (k, card, t) in ns.item.env['decl'].items():
                q = model.comps[i] + u'.' + n
                m.eq((s.IsResponse(q), s.IsOutcome(q), s.IsTemplate(q)), (k == 'R', k == 'O', k == 'T'), 'kind in the test', q, ctx)
            q = model.comps[i] + u'.'
            m.eq((s.IsResponse(q + 'duration'), s.IsResponse(q + 'numAttempts'), s.IsOutcome(q + 'completionStatus')), (True, True, True), 'kind of built-in in the test', q, ctx)
    for n in decl:
        m.eq((s.IsOutcome(n), s.IsResponse(n)), (True, False), 'kind of test outcome', n, ctx)
    m.check(s.IsResponse('duration') and not s.IsOutcome('duration'), 'kind of the test duration', ctx)


def fam_session(m, r):
    random.seed(r.randint(0, 1 << 30))
    ids = counter()
    parts = []
    for i in range(r.choice([1, 1, 2, 3])):
        parts.append(Node(u'P%d' % next(ids), [gen_section(r, ids, r.choice([0, 1, 2, 2]), False) for j in range(r.choice([1, 1, 2]))]))
    nodes = {}
    for p in parts:
        for n in p.all():
            nodes[n.id] = n
    for n in nodes.values():
        # selection that cannot fail
        n.required = n.fixed = False
        if n.kids is not None:
            n.keep = True
            n.shuffle = r.random() < .2 and n not in parts
            if n.select is not None:
                n.select = r.randint(1, len(n.kids))
                n.repl = r.random() < .1
            if r.random() < .8:
                n.select = None
                n.repl = False
    work = tempfile.mkdtemp('q02', dir=os.environ['VERIF_WORK'])
    try:
        items = {}
        for i in range(r.choice([1, 2, 3])):
            items[u'i%d.xml' % i] = Item(r, r.randint(1, 4), u'i%d' % i)
        for n in nodes.values():
            if n.kids is None:
                n.href = r.choice(sorted(items))
        decl = {}
        dx = u''
        for i in range(r.randint(0, 3)):
            t = r.choice(['integer', 'float', 'boolean', 'identifier'])
            v = qx.rvalue(r, 's', t)
            n = u'TOTAL%d' % i
            decl[n] = ('s', t, v[2])
            dx += u'<outcomeDeclaration identifier="%s" cardinality="single" baseType="%s">%s</outcomeDeclaration>' % (n, t, u'' if v[2] is None else u'<defaultValue>%s</defaultValue>' % qx.values_xml(v, r))
        # expressions over every name of the test
        env = {'vars': {'duration': ('s', 'duration', 0.0)}, 'templates': set(), 'defaults': {}, 'corrects': {}, 'maps': {}, 'areas': {}, 'patterns': qx.PATTERNS}
        for n, d in decl.items():
            env['vars'][n] = d
        used = [n for n in nodes.values() if n.kids is None]
        if not any(n.select is not None for n in nodes.values()):
            for n in used:
                for x, v in items[n.href].env['vars'].items():
                    env['vars'][n.id + u'.' + x] = v
                env['vars'][n.id + u'.numAttempts'] = ('s', 'integer', 0)
                env['vars'][n.id + u'.completionStatus'] = ('s', 'identifier', u'x')
                env['vars'][n.id + u'.duration'] = ('s', 'duration', 0.0)
        for n in nodes.values():
            if n.kids is not None and r.random() < .5 and not any(x.select is not None for x in nodes.values()):
                env['vars'][n.id + u'.duration'] = ('s', 'duration', 0.0)
        g = VGen(r, env, .008)
        order = []
        for p in parts:
            order.extend(list(p.all()))
        for i, n in enumerate(order):
            part = [p for p in parts if n in list(p.all())][0]
            for j in range(r.choice([0, 0, 0, 1, 2])):
                n.pre.append(cond(r, g))
            top = n in parts or any(n in p.kids for p in parts)
            for j in range(r.choice([0, 0, 1, 2])):
                inside = list(n.all())
                if n in parts:
                    ts = [p.id for p in parts[parts.index(n) + 1:]] + [u'EXIT_TEST']
                else:
                    ts = [x.id for x in order[i + 1:] if x not in inside and x not in parts and x in list(part.all())]
                    ts += [u'EXIT_TEST', u'EXIT_TESTPART', u'EXIT_TESTPART'] + ([] if top else [u'EXIT_SECTION'] * 3)
                n.branch.append((cond(r, g), r.choice(ts)))
            if n.kids is None:
                ds = items[n.href].env['decl']
                for x in sorted(ds):
                    if ds[x][0] == 'T' and r.random() < .5:
                        n.tdef.append((x, g.gen(ds[x][2] or 'integer', ds[x][1], r.choice([0, 1, 2]))))
                if r.random() < .01:
                    n.tdef.append((r.choice([u'nope', u'numAttempts'] + sorted(ds)), g.gen('integer', 's', 0)))
        src = test_xml(parts, r, dx)
        ctx = src + u''.join(u'\n%s: %s' % (k, v.src) for k, v in items.items())
        m.key(ctx)
        m.sample(src)
        for k, v in items.items():
            f = open(os.path.join(work, k), 'wb')
            f.write(v.src.encode('utf-8'))
            f.close()
        f = open(os.path.join(work, 'test.xml'), 'wb')
        f.write(src.encode('utf-8'))
        f.close()
        doc = core.QTIDocument(baseURI=str(URIFactory.URLFromPathname(os.path.join(work, 'test.xml'))))
        doc.Read()
        clock = Clock()
        variables.time = clock
        interleave(r, [sit(m, r, doc, nodes, parts, items, decl, clock, ctx) for i in range(r.choice([1, 1, 2]))])
    finally:
        shutil.rmtree(work, ignore_errors=True)


def cond(r, g):
    """A condition, true more often than not"""
    c = r.random()
    if c < .25:
        return ('baseValue', {'baseType': 'boolean', '_v': ('s', 'boolean', r.random() < .6)}, [])
    e = g.gen('boolean', 's', r.choice([1, 2, 2, 3]))
    if c < .55:
        return ('or', {}, [e, ('baseValue', {'baseType': 'boolean', '_v': ('s', 'boolean', True)}, [])]) if r.random() < .4 else ('isNull', {}, [e])
    return e


FAMILIES = [
    Family('program', fam_program, 2200, 40000, {'if_taken': 300, 'arm_taken': 100, 'else_taken': 100, 'exits': 100, 'set_setOutcomeValue': 1000, 'saves': 800, 'submits': 1500, 'refused': 100}),
    Family('form', fam_form, 1000, 16000, {'forms': 4000, 'selection_errors': 100, 'fixed_kept': 300, 'mixed_sections': 200, 'varied_tests': 300}),
    Family('spread', fam_spread, 120, 1200, {'positions': 300, 'repeats': 5}),
    Family('session', fam_session, 800, 14000, {'steps': 2000, 'skipped_section': 30, 'skipped_item': 100, 'branch_target': 60, 'branch_EXIT_SECTION': 20, 'branch_EXIT_TESTPART': 40, 'wrong_keys': 150, 'finished': 150}),
]
