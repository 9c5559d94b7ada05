"""Files written by a loop over a list of any length: what is in a file is a list of
pieces of text; Rows(k) stands for one piece per earlier iteration."""
import io


class Rows:
    def __init__(self, k):
        self.k = k


class FS:
    def __init__(self, dirs=(), files=None):
        self.dirs, self.files = set(dirs), dict(files or {})

    def path(self, p):
        return GhostPath(self, str(p).rstrip("/"))


class GhostPath:
    def __init__(self, fs, p):
        self.fs, self.p = fs, p

    def __truediv__(self, x):
        return GhostPath(self.fs, self.p + "/" + str(x))

    def __str__(self):
        return self.p

    __repr__ = __fspath__ = __str__

    def __eq__(self, o):
        return str(o) == self.p

    __hash__ = None

    name = property(lambda s: s.p.rsplit("/", 1)[-1])
    parent = property(lambda s: GhostPath(s.fs, s.p.rsplit("/", 1)[0]))

    def exists(self):
        return self.p in self.fs.dirs or self.p in self.fs.files

    def is_file(self):
        return self.p in self.fs.files

    def is_dir(self):
        return self.p in self.fs.dirs

    def mkdir(self, mode=0o777, parents=False, exist_ok=False):
        if self.exists():
            if not exist_ok:
                raise FileExistsError(self.p)
            return
        up = self.parent
        if not up.exists():
            if not parents:
                raise FileNotFoundError(self.p)
            if up.p:
                up.mkdir(parents=True)
        self.fs.dirs.add(self.p)

    def touch(self, mode=0o666, exist_ok=True):
        if not self.parent.exists():
            raise FileNotFoundError(self.p)
        if self.exists() and not exist_ok:
            raise FileExistsError(self.p)
        self.fs.files.setdefault(self.p, [])

    def unlink(self, missing_ok=False):
        if self.p not in self.fs.files and not missing_ok:
            raise FileNotFoundError(self.p)
        self.fs.files.pop(self.p, None)

    def open(self, mode="r", **k):
        if not self.parent.exists():
            raise FileNotFoundError(self.p)
        if mode in ("w", "wt"):
            self.fs.files[self.p] = []
        elif mode in ("a", "at"):
            self.fs.files.setdefault(self.p, [])
        elif mode == "x" and not self.exists():
            self.fs.files[self.p] = []
        else:
            from pyvc.sym import Unsupported

            raise Unsupported("opening a ghost file with mode %r" % mode)
        return GhostFile(self)

    def write_text(self, t, **k):
        with self.open("w") as f:
            f.write(t)


class GhostFile:
    def __init__(self, path, closed=False):
        self.path, self.closed = path, closed

    def write(self, t):
        if self.closed:
            raise ValueError("I/O operation on closed file.")
        if not isinstance(t, str):
            raise TypeError("write() argument must be str")
        if self.path.p not in self.path.fs.files:
            self.path.fs.files[self.path.p] = []
        self.path.fs.files[self.path.p].append(t)

    def writelines(self, ts):
        for t in ts:
            self.write(t)

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def text(pieces):
    return "".join(pieces)


def table_loop(ctx, name, fs, want, row, lists=()):
    """the loop that writes one row per record: `want` is {path: header text}, row(path,
    pieces, k) states the obligations on the text written for record k. Invariant: each
    file holds its header and one row for each earlier record, and there is no other
    file. A record of `lists` may be changed by its own iteration only"""
    from pyvc.loops import Loop
    from pyvc.sym import SymBool, Unsupported

    def split(p):
        pieces = fs.files.get(p)
        if pieces is None:
            return None, None, None
        at = [i for i, x in enumerate(pieces) if isinstance(x, Rows)]
        if not at:
            return text(pieces), None, ""
        return text(pieces[: at[0]]), pieces[at[0]], text(pieces[at[0] + 1 :])

    none = set()  # handles that are not there at entry stay so

    def inv(env, k):
        if not none:
            none.update(v for v, x in env.items() if x is None)
        if any(env[v] is not None for v in none):
            raise Unsupported("the loop sets a name that the invariant does not mention")
        out = [("files", set(fs.files) == set(want))]
        for p, h in want.items():
            head, rows, rest = split(p)
            out.append(("header-" + p.rsplit("/", 1)[-1], head == h))
            if rows is not None and rest == "":
                out.append(("rows-" + p.rsplit("/", 1)[-1], rows.k == k))
            elif rows is None:
                out.append(("none-yet-" + p.rsplit("/", 1)[-1], k == 0))
        return out

    def havoc(env, k):
        for p, h in want.items():
            fs.files[p] = [h, Rows(k)]
        fs.state = k
        st = {v: GhostFile(x.path, True) for v, x in env.items() if isinstance(x, GhostFile) and x.closed}
        st.update({v: None for v in none})
        return st

    def each(env, k):
        for x in lists:
            ctx.ensure("other-records-kept", all(SymBool(e == k.e) for e in x.touched()), "a record changes in the iteration of another one")
        for p in want:
            head, rows, rest = split(p)
            if rows is None:
                ctx.ensure("earlier-rows-kept", False, "the file is started anew for record k")
            ctx.ensure("earlier-rows-kept", rows.k == k)
            row(p, rest, k)
            fs.files[p] = [head, Rows(k + 1)]

    return Loop(name, inv, havoc, modifies=[fs] + list(lists), each=each)
