"""Reader for GCC's RTL dumps (-fdump-rtl-into_cfglayout-blocks-details).

The dump is the compiler's own intermediate representation of every function of a
translation unit: basic blocks of instructions, with all field offsets resolved, the
edges of the control flow graph (exception edges included) and the source position of
each instruction.
"""
import re


class Insn:
    __slots__ = ("kind", "uid", "pattern", "notes", "uses", "pos")

    def __init__(self, kind, uid, pattern, notes, uses, pos):
        self.kind, self.uid, self.pattern, self.notes, self.uses, self.pos = kind, uid, pattern, notes, uses, pos


class Block:
    def __init__(self, bid):
        self.id = bid
        self.insns = []
        self.succs = []  # (block id, set of flags)
        self.label = None


class Function:
    def __init__(self, name):
        self.name = name
        self.blocks = {}
        self.labels = {}  # label uid -> block id
        self.entry = None


_ws = " \t\n\r"
_vec_heads = ("parallel", "unspec", "unspec_volatile", "asm_operands", "sequence", "concatn", "const_vector")
_tok = re.compile(r'[^\s()\[\]"]+')


def _head(tok):
    return tok.split(":")[0].split("/")[0]


def parse_sexpr(text, i):
    """Parses one parenthesised expression at text[i]; gives (tree, next position).

    Annotations ([...], <...>, {...}) are dropped; vectors of parallel & co. become
    nested lists headed by '#vec'."""
    assert text[i] == "("
    i += 1
    out = []
    n = len(text)
    while i < n:
        c = text[i]
        if c in _ws:
            i += 1
        elif c == "(":
            t, i = parse_sexpr(text, i)
            out.append(t)
        elif c == ")":
            return out, i + 1
        elif c == '"':
            j = i + 1
            while text[j] != '"':
                j += 2 if text[j] == "\\" else 1
            out.append(("str", text[i + 1:j]))
            i = j + 1
        elif c == "[":
            if out and isinstance(out[0], str) and _head(out[0]) in _vec_heads and len(out) == 1:
                vec = ["#vec"]
                i += 1
                while True:
                    while text[i] in _ws:
                        i += 1
                    if text[i] == "]":
                        i += 1
                        break
                    if text[i] == "(":
                        t, i = parse_sexpr(text, i)
                        vec.append(t)
                    else:
                        m = _tok.match(text, i)
                        if not m:
                            i += 1
                        else:
                            i = m.end()
                out.append(vec)
            else:
                d = 0
                while True:
                    if text[i] == "[":
                        d += 1
                    elif text[i] == "]":
                        d -= 1
                        if d == 0:
                            i += 1
                            break
                    i += 1
        elif c == "<":
            m = re.compile(r"<\w+ 0x[0-9a-f]+ [^\n]*?>(?=[\s)])").match(text, i)
            if m:
                i = m.end()
            else:
                m = _tok.match(text, i)
                i = m.end()
        elif c == "{":
            while text[i] != "}":
                i += 1
            i += 1
        else:
            m = _tok.match(text, i)
            if not m:
                i += 1
                continue
            out.append(m.group(0))
            i = m.end()
    raise ValueError("unbalanced RTL expression")


_pos_after = re.compile(r'^:(\d+)')


def _insn(tree):
    kind = _head(tree[0])
    uid = int(tree[1])
    pattern = None
    notes = []
    uses = []
    pos = None
    lists = [x for x in tree[2:] if isinstance(x, list)]
    for k, x in enumerate(tree):
        if isinstance(x, tuple) and x[0] == "str" and pos is None:
            line = ""
            if k + 1 < len(tree) and isinstance(tree[k + 1], str):
                m = _pos_after.match(tree[k + 1])
                if m:
                    line = m.group(1)
            pos = (x[1], int(line) if line else 0)
    if lists:
        pattern = lists[0]
        rest = lists[1:]
        if rest:
            notes = rest[0]
        if len(rest) > 1:
            uses = rest[1]
    return Insn(kind, uid, pattern, notes, uses, pos)


def note_items(notes):
    """Flattens an expr_list chain into [(note name, expr)]."""
    out = []
    cur = notes
    while isinstance(cur, list) and cur and isinstance(cur[0], str) and cur[0] != "nil":
        h = cur[0].split(":")
        out.append((h[1] if len(h) > 1 else h[0], cur[1] if len(cur) > 1 else None))
        cur = cur[-1] if isinstance(cur[-1], list) else None
    return out


_fn = re.compile(r"^;; Function .*? \(([^,()\s]+)(?:[,)].*)$", re.M)
_bb = re.compile(r"^;; basic block (\d+),", re.M)
_edge = re.compile(r"^;;(?:  succ:)?\s+(\d+|EXIT)\b([^\n]*)$")


def parse(text, wanted=None):
    """Gives {name: Function} for the functions of a dump (wanted: predicate on the name)."""
    fns = {}
    heads = list(re.finditer(r"^;; Function (.*)$", text, re.M))
    for k, h in enumerate(heads):
        m = re.search(r"\(([^\s,()]+), funcdef_no=", h.group(0))
        if not m:
            continue
        name = m.group(1)
        if wanted and not wanted(name):
            continue
        body = text[h.end():heads[k + 1].start() if k + 1 < len(heads) else len(text)]
        fns[name] = _parse_fn(name, body)
    return fns


def _parse_fn(name, body):
    f = Function(name)
    starts = list(_bb.finditer(body))
    for k, s in enumerate(starts):
        bid = int(s.group(1))
        seg = body[s.start():starts[k + 1].start() if k + 1 < len(starts) else len(body)]
        if bid in f.blocks:
            raise ValueError("block printed twice")
        b = Block(bid)
        f.blocks[bid] = b
        if f.entry is None:
            f.entry = bid
        i = 0
        insucc = False
        lines_at = 0
        n = len(seg)
        while i < n:
            if seg[i] == "\n" or seg[i] in " \t":
                i += 1
                continue
            if seg.startswith(";;", i):
                j = seg.find("\n", i)
                if j < 0:
                    j = n
                line = seg[i:j]
                i = j
                if line.startswith(";;  succ:"):
                    insucc = True
                elif line.startswith(";;  ") and not line.startswith(";;              "):
                    insucc = False
                if insucc:
                    m = re.match(r"^;;(?:  succ:)?\s+(\d+|EXIT)\b([^\n]*)$", line)
                    if m:
                        fl = re.findall(r"\(([A-Z_,]+)\)", m.group(2))
                        flags = set(fl[-1].split(",")) if fl else set()
                        b.succs.append((m.group(1) if m.group(1) == "EXIT" else int(m.group(1)), flags))
                continue
            if seg[i] == "(":
                insucc = False
                tree, i = parse_sexpr(seg, i)
                h = _head(tree[0])
                if h in ("insn", "jump_insn", "call_insn"):
                    b.insns.append(_insn(tree))
                elif h == "code_label":
                    f.labels[int(tree[1])] = bid
                    if b.label is None:
                        b.label = int(tree[1])
                j = seg.find("\n", i)
                # trailing text such as " -> 69" may follow within the expression only
                continue
            # anything else: skip the line
            j = seg.find("\n", i)
            i = n if j < 0 else j
    return f
