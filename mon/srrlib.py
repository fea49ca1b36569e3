"""Releases on disk with known truth, and access to the code under test."""
import json, os, struct, zlib
from mon import rargen, srrparse
from mon.core import REPO, Violation, files, read, short, tree

import rescene
import rescene.main as rmain
from rescene.main import MsgCode


class Events(object):
    """collects the events fired by the code under test"""
    def __init__(self):
        self.events = []

    def __call__(self, event):
        self.events.append(event)

    def codes(self):
        return [e.code for e in self.events]

    def has(self, code):
        return code in self.codes()


def subscribe():
    e = Events()
    rescene.subscribe(e)
    return e


def always_yes(path):
    return True


def set_overwrite(fn):
    rmain.can_overwrite = fn


class Release(object):
    """root folder with RAR sets.  .sets: [(folder relative, RarSet)]"""
    def __init__(self, ctx, root="release"):
        self.ctx, self.root = ctx, ctx.mkdir(root)
        self.sets = []
        self.sfvs = []          # relative path of the SFV of each set, or None
        self.extra = {}         # relative path -> bytes: files to store

    def archived(self):
        """{name on disk: bytes} of all archived files"""
        d = {}
        for _, s in self.sets:
            for f in s.files:
                if not f.directory:
                    d[f.os_name] = f.data
        return d

    def write_archived(self, folder):
        for n, b in self.archived().items():
            self.ctx.write(os.path.join(folder, n), b)

    def expected_volumes(self, save_paths):
        """[(name in SRR, Volume)] in order of the sets"""
        out = []
        for folder, s in self.sets:
            for v in s.volumes:
                n = os.path.join(folder, v.name) if save_paths and folder else v.name
                out.append((n, v))
        return out

    def describe(self):
        return dict(sets=[(d, s.describe()) for d, s in self.sets], sfvs=self.sfvs,
                    extra=dict((k, len(v)) for k, v in self.extra.items()))


def fname(rng):
    return rng.choice(["a.nfo", "Sample file.nfo", "proof.jpg", "rel-cover.jpg", "notes.txt", "x.m3u",
                       "\u00e9t\u00e9.nfo", "UPPER.NFO", "long" + "n" * rng.randint(1, 120) + ".txt",
                       "no_ext", "dots.in.name.nfo", "br[1].nfo", "a~b.log"])


def release(ctx, nsets=None, paths=None, sfv=True, plain=False, extra=None, size=None, share=False,
            small=False, same=0, **kw):
    """a random release, written to disk
    same: how often the sets of the discs have the same volume names (one volume each in half of those)"""
    rng = ctx.rng
    twins = None
    if same and rng.random() < same:
        twins = rng.choice(["rel", "grp-name.x264", "name with space"])
        nsets = nsets if (nsets or 1) > 1 else rng.choice([2, 2, 3])
        if rng.random() < 0.5:
            kw["nvol_hint"] = 1
    r = Release(ctx)
    nsets = nsets or rng.choice([1, 1, 1, 2, 3])
    multi = nsets > 1
    for i in range(nsets):
        folder = ""
        if twins or multi and rng.random() < 0.6 or paths and rng.random() < 0.5:
            folder = rng.choice(["CD%d", "Disc %d", "sub/CD%d", "part%d"]) % (i + 1)
        if small:
            fs = rargen.pick_files(rng, prefix="s%d-" % i, size=size or (lambda g: g.choice([1, 10, 700, 3000])))
        else:
            fs = rargen.pick_files(rng, prefix="s%d-" % i, size=size)
        # exclude duplicates of folder entries over the sets
        fs = [f for f in fs if not f.directory] + [f for f in fs if f.directory and not multi]
        if not fs:
            fs = [rargen.AFile("s%d-only.bin" % i, b"x")]
        base = rng.choice(["rel", "grp-name.x264", "A.Release.2012-GRP", "name with space"]) + (
            "-cd%d" % (i + 1) if multi else "")
        if twins:
            base = twins
        s = rargen.make_set(rng, base=base, files=fs, plain=plain, **kw)
        r.sets.append((folder, s))
        s.write(os.path.join(r.root, folder))
        if sfv:
            def order(v, how=rng.choice(["sorted", "shuffle", "reverse"])):
                if how == "shuffle":
                    rng.shuffle(v)
                elif how == "reverse":
                    v.reverse()
            data = s.sfv(order)
            if rng.random() < 0.5:
                data = b"; Generated by x\r\n;\r\n" + data
            p = os.path.join(folder, base + ".sfv")
            ctx.write(os.path.join(r.root, p), data)
            r.sfvs.append(p)
            r.extra[p] = data
        else:
            r.sfvs.append(None)
    if extra is None:
        extra = rng.choice([0, 1, 2, 4])
    for j in range(extra):
        p = os.path.join(rng.choice(["", "", "Sample", "Proof", "Sub Dir/x"]), "%d-%s" % (j, fname(rng)))
        data = rng.randbytes(rng.choice([0, 1, 100, 4000]))
        r.extra[p] = data
        ctx.write(os.path.join(r.root, p), data)
    return r


def infiles(r):
    """what a user would give to SRR creation"""
    out = []
    for (folder, s), sfv in zip(r.sets, r.sfvs):
        out.append(os.path.join(r.root, sfv) if sfv else os.path.join(r.root, folder, s.volumes[0].name))
    return out


def make_srr(ctx, r, save_paths=True, name="out.srr", store=None, oso=True, **kw):
    """create through the library; must succeed"""
    srr = ctx.path(name)
    if store is None:
        store = [os.path.join(r.root, p) for p in r.extra if p not in r.sfvs]
    ok = ctx.must(rescene.create_srr, srr, infiles(r), r.root, list(store), save_paths,
                  oso_hash=oso, **kw)
    if ok is not True:
        raise Violation("SRR creation did not report success: %r" % (ok,))
    return srr


def parse(ctx, path):
    try:
        return srrparse.Srr(read(path))
    except (srrparse.ParseError, struct.error, UnicodeDecodeError) as e:
        raise Violation("SRR file %s is not well formed: %s" % (os.path.basename(path), e))


def expected_skeleton(r, save_paths):
    """RAR metadata part of the SRR, without hash blocks: [(name, bytes, padding)]"""
    out = []
    for n, v in r.expected_volumes(save_paths):
        out.append((n, v.skeleton, b"".join(d for k, d in v.parts if k == "pad")))
    return out


def cli(ctx, main, argv, cwd=None, answers=None, env=None, fault=None, fsize=None, fsize_kill=False,
        setup=None, count_reads=False):
    """run a command line entry point in a process of its own.  Returns dict(rc, out, err, exc)"""
    def go():
        if cwd:
            os.chdir(cwd)
        if setup:
            setup()
        import sys
        sys.argv = ["prog"] + list(argv)
        o = ctx.call(main, list(argv), _answers=answers)
        return dict(rc=o.rc, out=o.out, err=o.err, exc=o.tb[-2000:] if o.exc else None,
                    exit=o.exit if isinstance(o.exit, int) else None,
                    value=repr(o.value)[:100])
    st, res = ctx.in_child(go, fault=fault, fsize=fsize, fsize_kill=fsize_kill, count_reads=count_reads)
    ctx.count("cli_runs")
    if st == "done":
        d = res["ok"]
        d.update(n=res["n"], hit=res["hit"], died=None)
        return d
    return dict(rc=None, out="", err="", exc=None, died=st, n=0, hit=None)


# -- SRR files made by the reference writer ----------------------------------
NAMEBITS = ["a.nfo", "rel.sfv", "proof.jpg", "A B.txt", "UPPER.NFO", "\u00e9t\u00e9.nfo", "\u4e2d\u6587.txt", "x",
            "dots.in.a.name.m3u", "br[1].nfo", "a~b.log", "-dash.nfo", "%s.txt", "n" * 150 + ".nfo", "sample.srs", ".hid"]


def stored_names(rng, n):
    out = []
    dirs = ["", "", "Sample/", "Proof/", "CD1/", "CD2/", "a/b c/d/", "\u00e9/"]
    for i in range(n):
        how = rng.random()
        if how < 0.25 and out:      # same base name in another folder
            nm = rng.choice(dirs) + out[rng.randrange(len(out))].split("/")[-1]
        else:
            nm = rng.choice(dirs) + rng.choice(["", "%d-" % i]) + rng.choice(NAMEBITS)
        if nm not in out:
            out.append(nm)
    return out


def ref_skeleton(sets, sp=True, pads=True):
    """bytes of the volume blocks of an SRR: [(folder, RarSet)]"""
    out = b""
    for folder, s in sets:
        for v in s.volumes:
            n = (folder + "/" + v.name) if sp and folder else v.name
            out += srrparse.rarname_block(n) + v.skeleton
            p = b"".join(d for k, d in v.parts if k == "pad")
            if p:
                out += srrparse.pad_block(p)
    return out


def ref_srr(ctx, nstored=None, nsets=None, app=None, oso=None, vol=True, **kw):
    """(bytes, app, [(name, data)], skeleton, sets) of a random well formed SRR"""
    rng = ctx.rng
    n = rng.choice([0, 1, 2, 3, 5, 8]) if nstored is None else nstored
    stored = [(x, rng.randbytes(rng.choice([0, 1, 17, 300, 5000]))) for x in stored_names(rng, n)]
    sets = []
    nsets = rng.choice([0, 1, 1, 1, 2]) if nsets is None else nsets
    for i in range(nsets if vol else 0):
        fs = rargen.pick_files(rng, prefix="s%d-" % i, size=lambda g: g.choice([0, 1, 50, 900]))
        kw.setdefault("base", None)
        k = dict(kw)
        base = k.pop("base") or rng.choice(["rel", "grp.x264", "name with space"])
        s = rargen.make_set(rng, base=base + ("" if nsets == 1 else "-%d" % i), files=fs, **k)
        sets.append((rng.choice(["", "", "CD%d" % (i + 1), "a/b"]), s))
    sk = ref_skeleton(sets)
    if oso is None:
        oso = rng.random() < 0.3 and sets
    if oso:
        for i in range(rng.randint(1, 2)):
            sk += srrparse.oso_block("video%d.avi" % i, rng.randrange(65536, 1 << 40), rng.getrandbits(64))
    if app is None:
        app = rng.choice(["", "pyReScene Auto 0.6", "ReScene .NET 1.2", "\u00e9\u4e2d"])
    if len(srrparse.build(app, stored, sk)) < 20:       # the reader wants 20 bytes
        app = "ReScene .NET 1.2"
    return srrparse.build(app, stored, sk), app, stored, sk, sets
