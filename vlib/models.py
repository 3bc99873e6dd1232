"""The parts of each property's check."""
import concurrent.futures as cf
import json, os, random, re
import run

# The frames (spec/Frames.tla) that are explored for each property, and the
# invariants (spec/MC.tla) that express it on the model.
FRAMES = {
    "C03": ("TokArith TokParam TokHere TokCmd TokTick TokFor Arith3 Params4 Groups Words3 Broken ArithU", "Progress NoCustom"),
    "C04": ("IterLists IterPipes IterWords IterHere IterToks", "Fused IterIsCalls"),
    "C05": ("PosTicks PosHere PosText PosDup Ticks2_3 EntryBlank", "Positions"),
    "C06": ("Seps Ifs3 Ifs23 Loops3 Fors3 Fors23 Cases Cases23 Fns_3 Fns2_3 Params Params4 Delims LineRests Subst Arith "
            "Empties Dups Quotes Glued", "ErrStable"),
    "C07": ("Ifs3 Ifs23 Loops3 Fors3 Fors23 Cases3 Cases23 Fns4 Fns2_3 Simple Mixed Redirs TwoDocs3 Ticks2_3 Pipes3 Params2", "Trees"),
    "C08": ("Seps Ifs3 Ifs23 Fors2 Cases Cases2 Fns2 Fns_3 Empties Lists3 Pipes3 LineRests Bodies3", "Comments"),
    "C09": ("FailLists FailPipes FailIfs FailLoops FailFors FailCases FailCases2 FailFns FailFns2 FailSimple FailAssign "
            "FailHere FailHere2 FailParams FailSubst FailTicks FailDups", "Abort NoCustom"),
    "C10": ("Lists Pipes Seps Groups3", "Progress"),
    "C11": ("Ifs Ifs23 Loops Fors Cases Groups Reserved Empties3 Glued", "Trees"),
    "C12": ("Fns Fns2 Fns3 Fns4 FnNames FnNames2", "Trees"),
    "C13": ("Simple Mixed Redirs Dups Assigns", "Trees"),
    "C14": ("Delims Bodies Tabs QuotedDocs TwoDocs LineRests", "Trees"),
    "C15": ("Words Quotes Globs Ticks_3", "Progress"),
    "C16": ("Params Params2 Params3 Params4 Params5", "Progress"),
    "C17": ("Subst Ticks Ticks2 Ticks3", "SubstAlone"),
    "C18": ("Arith Arith2 Arith3 Arith4 Arith5 Arith6 ArithU EntryArith", "Progress"),
    "C19": ("Words3 Quotes Globs Params Params2 Params5 Simple3 Cases3 Ifs23 Ticks2_3 Fns4 Redirs Seps3", "CanonicalWords"),
    "C20": ("Seps3 Ifs23 Loops3 Fors23 Params Params4 Dups Delims Fns_3 Quotes", "NoCustom"),
    "C21": ("Seps Bodies Tabs3 TwoDocs LineRests Cases3 Fors23 Ifs23", "PrefixEnough"),
    "C22": ("EntryBlank EntryWords EntryRedirs EntryReserved EntryGroups EntryDo EntryIf EntryLoop EntryFor EntryCase EntryFn EntryLists "
            "EntryParams EntryArith EntryTicks", "PeekTransparent"),
}
LEX = {  # alphabet: the longest texts (quick, thorough)
    "ops": (3, 4), "text": (3, 4), "every": (2, 3), "small": (4, 6),
}

# What is derived from the grammar (spec/Grammar.tla) for each property: the
# features whose productions are used.
ARITH = "ar arnum arall entries entryar param gap args args1 words line"
PARAM = "param paramall operand operandall params dq dqlit dqesc sq esc glob cmdsub bt ar pieces args words gap"
WORD = "lit litall esc escall glob globall sq sqnl dq dqlit dqlitall dqesc dqescall word$ pieces params param cmdsub bt args gap words line"
SIMPLE = "lit esc sq dq dqlit pieces params param args args1 resargs names vars varall redirs redir redirall fd fdall dup dupall here gap"
HERE = "here hereall delims rawall tabs fd redirs args cmdsub bt dq dqlit line semi andor pipe comment lb param compound gap"
LIST = "line semi amp andor pipe lb comment empty gap"
COMPOUND = LIST + " compound loops for case caseall pats words else elif fn fnall names resargs args redirs redir"
NESTED = LIST + " bt cmdsub dq dqlit dqlitall dqesc dqescall esc escall sq here hereall tabs rawall delims param params operand args pieces compound"
ENTRIES = "entries entry entryar "
GRAMMAR = {
    "C03": ENTRIES + WORD + " badsubst badcmd badfd", "C04": COMPOUND, "C05": NESTED + " sqnl operandall", "C06": COMPOUND + " dq sq bt cmdsub param operand badsubst badcmd badfd",
    "C07": COMPOUND + " here", "C08": COMPOUND + " cmdsub", "C09": COMPOUND + " cmdsub bt here operand param badsubst badcmd badfd",
    "C10": LIST + " compound fn here bt cmdsub", "C11": COMPOUND, "C12": "fn fnall compound loops for case redirs redir words names lb comment line",
    "C13": SIMPLE + " badfd", "C14": HERE, "C15": WORD, "C16": PARAM + " badsubst", "C17": NESTED, "C18": ARITH + " badsubst", "C19": WORD + " " + PARAM + " " + COMPOUND + " here",
    "C20": COMPOUND + " dq sq bt cmdsub param operand badsubst badcmd badfd", "C21": COMPOUND + " here tabs", "C22": ENTRIES + COMPOUND + " here bt param vars",
}


def for_property(c):
    return ([lexer] if c.prop in ("C01", "C02") else []) + ([explore] if c.prop in FRAMES else []) + \
        ([derivations] if c.prop in GRAMMAR else []) + [recordings]


def behaviours(c, module, cfg, name, timeout, **kw):
    out = c.work.path("behaviours")
    r = run.tlc(c.work, module, cfg + "CHECK_DEADLOCK FALSE\n", {"OUT": out}, timeout=timeout, **kw)
    if not r.ok:
        raise run.Broken("TLC on %s (%s):\n%s" % (module, name, r.text[-3000:]))
    with open(out, "rb") as f:
        lines = f.read().splitlines()
    os.unlink(out)
    if not lines:
        raise run.Broken("no behaviours of " + name)
    if c.prop == "C20":         # the displayed forms are compared by TLC
        c.states, c.transitions = c.states + r.distinct, c.transitions + r.generated
        c.validate([plain(l) for l in lines], name)
    else:
        c.replay(lines, name, r)


def plain(line):
    """A behaviour's session without what is expected of it."""
    x = json.loads(line)
    x = json.loads(x) if isinstance(x, str) else x
    del x["exp"]
    return json.dumps(x).encode()


def features():
    """All features of the grammar."""
    with open(os.path.join(run.SPEC, "Grammar.tla")) as f:
        t = f.read()
    return set(re.findall(r'\bP\(\d+, "([a-z0-9$]+)"', t)) | set(sum((x.split() for x in GRAMMAR.values()), []))


def derivations(c):
    """Random derivations of the grammar: the parser of the specification has
    to return what the grammar says, and the code what that parser does."""
    focus = GRAMMAR[c.prop].split()
    every = sorted(features())
    if c.prop == "C19":
        every = [x for x in every if not x.startswith("entr")]
    n = (2000, 1000) if c.quick else (20000, 10000)
    if c.prop in ("C04", "C09", "C20"):     # these are validated by TLC, which takes longer
        n = (1000, 500) if c.quick else (6000, 3000)
    jobs = [(focus, "5, 16", 20, n[0]), (focus, "5, 16", 20, n[0]), (focus, "9", 5, n[0]), (focus, "24", 30, n[1]),
            (every, "5, 16", 20, n[0]), (every, "30", 30, n[1])]

    def one(k):
        fs, budgets, sure, num = jobs[k]
        out = c.work.path("derivations")
        r = run.tlc(c.work, "MCGrammar", 'SPECIFICATION Spec\nCONSTANTS Features = {%s, ""} Budgets = {%s} Sure = %d '
                    'Cuts = TRUE Mode = "%s"\nINVARIANT Agree\nCHECK_DEADLOCK FALSE\n' % (
                        ", ".join('"%s"' % f for f in fs), budgets, sure, "default" if c.prop == "C19" else "parse"),
                    {"OUT": out}, timeout=800 if c.quick else 6000, workers=1, xmx="2g",
                    extra=["-simulate", "num=%d" % num, "-depth", "5000", "-seed", str(c.seed * 100 + k)])
        if not r.ok:
            raise run.Broken("TLC on MCGrammar:\n" + r.text[-3000:])
        with open(out, "rb") as f:
            ls = f.read().splitlines()
        if len(set(ls)) < num // 8:
            raise run.Broken("hardly any derivations: %d of %d are distinct" % (len(set(ls)), num))
        return r, ls

    with cf.ThreadPoolExecutor(len(jobs)) as ex:
        res = list(ex.map(one, range(len(jobs))))
    lines = sorted(set(l for _, ls in res for l in ls))
    tot = run.Tlc(True, "", sum(r.generated for r, _ in res), sum(r.distinct for r, _ in res))
    if c.prop not in ("C04", "C09", "C20"):
        c.replay(lines, "derivations of the grammar", tot)
        return
    c.states, c.transitions = c.states + tot.distinct, c.transitions + tot.generated
    rnd = random.Random(c.seed)
    ss = []
    for l in lines:
        x = json.loads(l)
        x = json.loads(x) if isinstance(x, str) else x
        del x["exp"]
        if c.prop == "C04":
            x["calls"] = x["calls"][:rnd.randint(0, len(x["calls"]) - 1) if rnd.random() < 0.5 else 0] + [["into_iter"], ["*"]]
            x["via"] = rnd.choice(["own", "ref", "box"])
        if c.prop == "C09":
            x["fail"] = rnd.randint(1, 3 + len(x["cs"]) // 2)
        ss.append(json.dumps(x).encode())
    c.validate(ss, "derivations of the grammar")


def lexer(c):
    """All short texts over some alphabets, through the lexer's machine."""
    for a in LEX:
        if c.violated:
            return
        n = LEX[a][0 if c.quick else 1]
        behaviours(c, "MCLex", 'SPECIFICATION Spec\nCONSTANTS Alphabet = "%s" MaxLen = %d\n'
                   "INVARIANTS Agree Complete Lossless NoEmpty Fused Hint PromptNl Kinds MaxMunch EscSingle\n" % (a, n),
                   "all texts of at most %d characters of `%s`" % (n, a), 800 if c.quick else 6000)


def explore(c):
    """All behaviours of the parser in the property's frames."""
    names, invs = FRAMES[c.prop]
    names = names.split()
    emit = "default" if c.prop == "C19" else "yes"
    sets = [names] if c.quick else [[x] for x in names]
    for s in sets:
        if c.violated:
            return
        behaviours(c, "MC", 'SPECIFICATION Spec\nCONSTANTS Names = {%s} More = %d Mode = "%s"\nINVARIANTS %s\n' % (
            ", ".join('"%s"' % x for x in s), 0 if c.quick else 1, emit, invs),
            "frames " + " ".join(s), 800 if c.quick else 6000)


def recordings(c):
    """Random sessions of the real code, validated by TLC."""
    n, maxlen = (8000, 90) if c.quick else (40000, 200)
    step = min(n, 8000)
    for k in range(0, n, step):
        if c.violated:
            return
        c.validate(run.gen(c.prop, c.seed * 1000 + k // step, step, maxlen), "random sessions")
