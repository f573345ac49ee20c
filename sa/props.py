"""The properties and the analyses that decide them."""
from . import opsuite, methods, statuses, undefs, owner, files, mojson, structs, imports, exports, latex, slices, state
from .report import Report
from . import model as m

PROPS = {}

TRUST = ['The summaries are over-approximations only where the evidence lists a construct as undecided; '
         'undecided constructs raise no alarm.',
         'Public operations are replaced by their specification where they are called and checked against '
         'it where they are defined (assume-guarantee).',
         'The finite witness domains contain a distinguishing operand tuple for realistic errors.',
         'Iteration order is covered by evaluating every summary with ascending and descending order.']


NOTE = ('Sound for the analysed language up to the listed assumptions: an agreement over all valuations of the witness domains, '
        'all combinations of remembered statuses and both iteration orders, not a proof for all operands. Constructs '
        'outside the language are listed as undecided in the evidence and raise no alarm.')


class Prop:
    def __init__(self, pid, technique, explanation, run, assumptions=TRUST, note=''):
        self.pid, self.technique, self.explanation, self._run = pid, technique, explanation, run
        self.assumptions = assumptions
        self.note = note or NOTE
        PROPS[pid] = self

    def run(self, tier):
        return self._run(tier)


def last(n): return n.rpartition('.')[2]


def is_predicate(n):
    return last(n).startswith('is_') and '_member' not in n and not last(n).endswith('set_of') and not n.startswith(m.RDF)


def prefix(*ps):
    return lambda n: n.startswith(ps) and '_member' not in n and not is_predicate(n)


EXPL = ('Guarded-value abstract interpretation of the source of each public operation (loops summarised once '
        'with a generic element, branches merged under guards, library calls replaced by their specification) '
        'yields a summary of results and effects; {} Nothing of the library is executed and no solver is used.')


def ops(pid, modes, sel, expl, unchecked=True):
    Prop(pid, 'guarded-value abstract interpretation (summary extraction), decided against denotations',
         EXPL.format(expl), lambda tier: opsuite.run(modes, sel, tier, unchecked))


# ------------------------------------------------------------------------------------------------
# obligations of other analyses than the operation summaries
GROUPS = {
    'method': (lambda eng, a, tier: methods.work(eng, a, tier),
               'the summarised result of the method equals its meaning at every receiver and argument of the witness domain, also '
               'after an earlier call'),
    'constructor': (lambda eng, a, tier: methods.ctor_work(eng, a, tier),
                    'the data stored by the constructor equals the meaning of its arguments'),
    'hash': (lambda eng, a, tier: methods.hash_work(eng, a, tier),
             'the hash of an object is one value for every iteration order, every remembered status, first and later call'),
    'order': (lambda eng, a, tier: methods.order_work(eng, tier),
              'the summarised comparison operators form a strict total order on the witness objects and agree with each other'),
    'status': (lambda eng, a, tier: statuses.work(eng, a),
               'status accessors agree with the stored status, setters and constructors store true statuses only and never '
               'replace a known one'),
    'undef': (lambda eng, a, tier: undefs.work(eng, a),
              'definitions of the undefined value and of the raise level agree with what all other analyses assume'),
}


def _group(j):
    try:
        return GROUPS[j[0]][0](opsuite.engine(), j[1], j[2])
    except Exception as e:                      # the summary has a form that is not understood: nothing is claimed
        return dict(name='{}({})'.format(*j[:2]), obligations=1, decided=0, findings=[], valuations=0,
                    undecided={'{}: {}'.format(type(e).__name__, str(e)[:120]): 1})


def groups(jobs, tier, rep=None):
    """Run [(group, argument)] and collect the outcomes in a report."""
    rep = rep or Report()
    opsuite.engine()
    jobs = [(g, a, tier) for g, a in jobs]
    for (g, a, t), o in zip(jobs, opsuite.parallel(_group, jobs)):
        rep.rules[g] = GROUPS[g][1]
        rep.constructs.add(o['name'])
        rep.obligations += o['obligations']
        rep.decided += o['decided']
        for k, n in o['undecided'].items():
            rep.undecided.append('{}: {} ({})'.format(o['name'], k, n))
        for f in o['findings']:
            rep.find(f['rule'], f['construct'], f['where'], f['text'], f['witness'], key=f['key'])
        rep.count('valuations', o['valuations'])
        rep.count(g + ' summaries', o['obligations'])
        if o['obligations'] and len(rep.samples) < 3:
            rep.samples.append('{}: {} obligations, {} valuations compared'.format(o['name'], o['obligations'], o['valuations']))
    return rep


MEXPL = ('Guarded-value abstract interpretation of the source of {} yields a summary of results, exceptions and stored data, '
         'which is compared with {} Nothing of the library is executed and no solver is used.')


def table(which):
    return [('method', i) for i, sp in enumerate(methods.TABLE) if sp in which]


def other(pid, jobs, what, against):
    p = Prop(pid, 'guarded-value abstract interpretation (summary extraction), decided against denotations',
             MEXPL.format(what, against), lambda tier: groups(jobs, tier))
    p.own = True


other('C16', table(methods.IDENTITY) + [('hash', k) for k in methods.CLS] + [('order', None)],
      'the comparison operators and hash functions of the mathematical objects',
      'structural equality and the laws of a strict total order.')
other('C17', [('status', j) for j in range(len(statuses.JOBS))],
      'the status accessors, down to the bit fields, and of the constructors',
      'the status stored before and the true status.')
other('C18', table(methods.CONTAINER) + [('constructor', i) for i in range(len(methods.CTORS))],
      'the constructors and container methods of the mathematical objects',
      'the elements, multiplicities and components that the arguments denote.')
other('C19', table(methods.LOOKUP),
      'the left/right lookups (obj(left), obj[left], get_left_set, get_right_set), as first and as later call',
      'the denotation of the lookup.')
other('C22', table(methods.TEXT), 'the text representations of the mathematical objects',
      'the requirement that the code representation parses back to the same object and the short form shows every part, '
      'for both iteration orders.')


ops('C01', ['flags'], lambda n: True,
    'every property status recorded on any object on any path is compared with the true status.')
ops('C02', ['ret:member'], is_predicate, 'the summary is compared with the definition of the property.')
ops('C03', ['ret:member', 'ret:nonmember', 'ret:undef'], lambda n: '_member' in n,
    'the summary is compared with the definition of membership.')
ops('C04', ['ret:nonmember'], lambda n: '_member' not in n and not n.startswith((m.PART, m.RDF)),
    'the summary must be undefined when an operand has the wrong type.', False)
ops('C05', ['ret:undef'], lambda n: '_member' not in n and not n.startswith((m.PART, m.RDF)),
    'the summary must be the specified value when an operand is undefined.')
ops('C06', ['undefelem'], lambda n: True,
    'every constructor call reachable in it is checked for undefined elements.')
OWNER_TRUST = ['Functions of the standard library and of rdflib modify only what they are documented to modify.',
               'Calls of function parameters (user callbacks) modify nothing.',
               'Methods are resolved by name over all classes of the package.']
Prop('C07', 'interprocedural alias and effect analysis over the syntax tree',
     'Every function of the package is abstracted to its effects (in-place changes, attribute stores, kept containers) on the objects its parameters '
     'denote and on what is stored inside them; variables are tracked flow-sensitively, calls by summaries computed to a fixpoint. No public function may have an effect on the value '
     'of an existing object or on a container passed in. No code of the library is executed.',
     owner.run, OWNER_TRUST,
     'Sound for in-place changes through the tracked aliases; results of unknown calls and of user callbacks carry no aliases.').own = True
ops('C08', ['ret:member'], prefix(m.SETS), 'the summary is compared with the denotation.')
ops('C09', ['ret:member'], prefix(m.MSETS), 'the summary is compared with the denotation.')
ops('C10', ['ret:member'], prefix(m.RELS, m.COUPLETS), 'the summary is compared with the denotation.')
ops('C11', ['ret:member'], prefix(m.CLANS), 'the summary is compared with the denotation.')
ops('C12', ['ret:member'], prefix(m.MCLANS), 'the summary is compared with the denotation.')
ops('C13', ['pre'], lambda n: True, 'operands of unchecked calls are compared with the membership tests.')
ops('C14', ['ret:member', 'ret:nonmember', 'ret:undef', 'undefelem'], prefix(m.EXT),
    'the summary is compared with the extension of an arbitrary function, whose results may be undefined, to sets and multisets.')
ops('C15', ['ret:member', 'flags', 'undefelem'], prefix(m.PART),
    'the summary is compared with the equivalence classes of an arbitrary function.')
Prop('C24', 'path-sensitive typestate analysis',
     'Every function of the package from which an opening or closing call can be reached is executed abstractly over all its paths, with every call, iteration, '
     'subscript, arithmetic operation and yield a possible exception; the state holds which files are open and which conditions hold. Helpers, closures, context '
     'managers and callbacks are followed. No code of the library is executed.',
     files.run, ['Functions outside the package neither close nor keep the files they are given.', 'An opening call that raises has opened nothing.',
                 'A caller consumes no iterator that it obtains after it closed the file it gave.'],
     'Loops to a fixpoint; recursion is cut.').own = True
SHAPES = 'abstract evaluation over shapes with opaque parts (trace partitioning over opaque tests), induction over the structure'
SHAPE_NOTE = ('Sound for every argument of the listed shapes, whatever their opaque parts are; other shapes follow by induction as far as the '
              'functions treat parts only through the recursive calls. Constructs the evaluator does not know are listed as undecided.')
SHAPE_TRUST = ['The algebra operations and constructors that are called do what the other properties say (assume-guarantee).',
               'The standard library does what it is documented to do.']
Prop('C23', SHAPES,
     'encode and the hooks of the JSON encoder and decoder are evaluated abstractly on every kind of supported object with opaque parts; recursive calls on parts '
     'give opaque encodings, which decode to the part (induction hypothesis). The decoded term must equal the original one, types included, for both iteration orders of '
     'sets. No code of the library is executed.', mojson.run, SHAPE_TRUST, SHAPE_NOTE).own = True
Prop('C21', SHAPES,
     'The CSV, JSON, XML and RDF importers are evaluated abstractly on files of every shape (full, missing, blank, repeated rows and cells; every kind of node, attribute, '
     'text and term) under every option, with opaque texts and values; the parsers of the standard library and of rdflib stand in as models. The result must be the data of the '
     'file, what it remembers about itself must be true, and files must be read as UTF-8. No code of the library is executed.',
     imports.run, SHAPE_TRUST + ['rdflib parses files as documented.'], SHAPE_NOTE).own = True
Prop('C26', SHAPES,
     'The exporters to CSV, JSON and HTML are evaluated abstractly on tables of every shape with opaque cells. What they write is a sequence of constant and opaque texts, '
     'each with the encodings it went through; it is parsed as the format it is meant to be and compared with the table. No code of the library is executed.',
     exports.run, SHAPE_TRUST, SHAPE_NOTE).own = True
Prop('C27', SHAPES,
     'The LaTeX and readable printers are evaluated abstractly on every kind of object with opaque parts; the text of a part is opaque (induction hypothesis). The text must '
     'show every part once, in order and with its multiplicity, balanced, and not depend on the iteration order. No code of the library is executed.',
     latex.run, SHAPE_TRUST, SHAPE_NOTE).own = True
Prop('C28', 'interprocedural effect analysis with an inventory of persistent locations, reset-before-read by path analysis',
     'Every location that outlives a call and that some function writes is found by the effect analysis and must be a setting, unread, set anew before it is read on every '
     'path of every public function, a constant made once, or a table of results with keys that tell apart all arguments the result depends on.',
     state.run, ['Reflection other than getattr, hasattr and setattr with constant names is not used to reach such locations.',
                 'The memory in an object of what is known about it (statuses, hash) is judged by C01 and C16.'],
     'Calls through unknown values are not followed.').own = True
Prop('C29', SHAPES,
     'The slicing functions are evaluated abstractly on multiclans of up to three opaque relations (four in the thorough tier) with all multiplicities from one to three, every '
     'position and length up to behind the end, unlimited lengths, plain and atomic numbers, a comparison that gives plain or atomic truth values, and both iteration orders; '
     'the result must be exactly the asked part. No code of the library is executed.',
     slices.run, SHAPE_TRUST, 'Every decision of a slice compares sums of multiplicities with the two positions; the explored values make every entry lie before, at, across '
     'and behind either end. Larger multiclans follow as far as the loop treats its entries alike.').own = True
Prop('C25', SHAPES,
     'The methods and constructors of all kinds of structures are evaluated abstractly for every pair of shapes with opaque parts, whose inclusion is an arbitrary order; '
     'inclusion, equality, hash, normal form of unions and power set level must be those of the described sets; get_ground_set is evaluated for every kind of object. No '
     'code of the library is executed.', structs.run, SHAPE_TRUST[1:], SHAPE_NOTE).own = True
ops('C30', ['ret:member', 'undefelem', 'pre'], lambda n: n.startswith(m.RDF),
    'the summary is compared with the definition of triples, graphs and matches.')
Prop('C20', 'guarded-value abstract interpretation (summary extraction), decided against denotations',
     EXPL.format('the origin of every undefined result is compared with its error class, and the definition of the undefined value and '
                 'the raise level with what is assumed about them.'),
     lambda tier: groups([('undef', None)], tier, opsuite.run(['level'], lambda n: not n.startswith((m.PART, m.RDF)), tier))).own = True
