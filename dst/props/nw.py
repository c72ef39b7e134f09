"""Shared pieces of the scenarios that drive whole `now` commands."""
import os
import sqlite3

from .. import target
from . import common as c

#: commands that take --content-engine
ENGINE_ARG = {"run", "restore", "gc", "schema", "vis", "show", "export", "ast", "history", "dataflow", "clean",
              "evaluation", "list", "diff"}


def argv_for(engine, argv):
    argv = list(argv)
    if engine and argv[0] in ENGINE_ARG:
        argv[1:1] = ["--content-engine", engine]
    return argv


def now(world, out, engine, *argv, **kw):
    """One `now` command as a simulated process."""
    mode = engine
    if argv[0] not in ENGINE_ARG and engine != "plain":
        mode = "distributed_pygit"           # what it falls back to
    kw.setdefault("name", "now-" + argv[0])
    return c.run(world, out, mode, target.now, argv_for(engine, argv), **kw)


# -------------------------------------------------------------- reading back
TABLES = ["trial", "argument", "environment_attr", "module", "dependency", "code_component", "code_block",
          "composition", "evaluation", "activation", "member", "file_access", "tag", "head"]


class Db(object):
    """What db.sqlite holds, read without the package under test."""

    def __init__(self, path):
        self.exists = os.path.exists(path)
        self.tables = {}
        if not self.exists:
            return
        con = sqlite3.connect("file:%s?mode=ro" % path, uri=True)
        try:
            con.row_factory = sqlite3.Row
            names = [r[0] for r in con.execute("select name from sqlite_master where type='table'")]
            for name in names:
                if not name.startswith("sqlite_"):
                    self.tables[name] = [dict(r) for r in con.execute('select * from "%s"' % name)]
        finally:
            con.close()

    def __getitem__(self, name):
        return self.tables.get(name, [])

    @property
    def trials(self):
        return sorted(self["trial"], key=lambda t: t["sequence_key"])

    def of(self, table, trial_id):
        rows = [r for r in self[table] if r.get("trial_id") == trial_id]
        return sorted(rows, key=lambda r: (r.get("id") is None, str(type(r.get("id"))), r.get("id") or 0)
                      if rows and "id" in rows[0] else 0)

    def facts(self, trial_id):
        """Every recorded fact of a trial, as comparable sorted rows."""
        found = {}
        for table, rows in self.tables.items():
            if table in ("graph_cache",):
                continue
            if table == "trial":
                mine = [r for r in rows if r["id"] == trial_id]
            else:
                mine = [r for r in rows if r.get("trial_id") == trial_id]
            if mine:
                found[table] = sorted(repr(sorted(r.items(), key=lambda i: i[0])) for r in mine)
        return found


def dump(world, sub=""):
    """A reader of the store as another process would see it.

    A journal left by a crash is rolled back by the first reader, as sqlite
    does for every user; work on a copy, so that reading changes nothing."""
    import shutil
    folder = world.path(sub, ".noworkflow") if sub else world.path(".noworkflow")
    copy = os.path.join(world.io, "dbcopy")
    shutil.rmtree(copy, ignore_errors=True)
    os.makedirs(copy)
    for name in ("db.sqlite", "db.sqlite-journal", "db.sqlite-wal", "db.sqlite-shm"):
        src = os.path.join(folder, name)
        if os.path.exists(src):
            shutil.copy(src, os.path.join(copy, name))
    path = os.path.join(copy, "db.sqlite")
    if os.path.exists(path):
        # let sqlite roll back a hot journal in the copy
        con = sqlite3.connect(path)
        con.execute("select count(*) from sqlite_master").fetchone()
        con.close()
    return Db(path)


def diff_facts(one, two):
    """First difference between two facts() results, as text, or None."""
    for table in sorted(set(one) | set(two)):
        a, b = one.get(table, []), two.get(table, [])
        if a != b:
            extra = [r for r in a if r not in b][:2]
            missing = [r for r in b if r not in a][:2]
            return "%s: %d rows became %d; gone %s; new %s" % (table, len(a), len(b), extra, missing)
    return None


def read_contents(engine, ids):
    """Body of a process: {id: bytes or ("error", ...)}."""
    return dict(zip(ids, c.get_all(engine, list(ids))[0]))


# ----------------------------------------------------------- case generators
def pick_engine(rng, heavy=.25):
    """Mostly the fast engines; some with simulated worker processes."""
    if rng.random() < .6:
        return "plain"
    if rng.random() < heavy:
        return rng.choice(c.SCHEDULED + c.THREADED)
    return rng.choice(c.SYNC[1:3] + ["gitdb"])


def run_options(rng):
    """Options of `now run` that must not change what it does."""
    options = []
    if rng.random() < .1:
        options += ["-S", str(rng.choice([1, 2, 3, 7, 50]))]
    if rng.random() < .5:
        options += ["-s", str(rng.choice([1, 3, 10, 10, 50]))]
    if rng.random() < .2:
        options += ["-d", str(rng.choice([0, 1, 2, 3, 50]))]
    if rng.random() < .15:
        options += ["-c", rng.choice(["main", "package", "all"])]
    if rng.random() < .1:
        options += ["--name", "other"]
    if rng.random() < .1:
        options += ["--message", "a message"]
    return options


def drop_options(options):
    for index in range(0, len(options), 2):
        yield options[:index] + options[index + 2:]


# ------------------------------------------------------------- completeness
#: column(s) -> table whose (trial_id, id) they name; None of them may be NULL
REFS = [("code_component", "container_id", "code_block", True), ("code_block", "id", "code_component", False),
        ("composition", "part_id", "code_component", True), ("composition", "whole_id", "code_component", False),
        ("evaluation", "code_component_id", "code_component", False),
        ("evaluation", "activation_id", "activation", False),
        ("activation", "id", "evaluation", False), ("activation", "code_block_id", "code_block", True),
        ("module", "code_block_id", "code_block", True), ("file_access", "activation_id", "activation", False),
        ("dependency", "dependent_activation_id", "activation", False),
        ("dependency", "dependency_activation_id", "activation", False),
        ("member", "collection_activation_id", "activation", False),
        ("member", "member_activation_id", "activation", False)]

#: pairs (activation, evaluation) that name an evaluation
PAIRS = [("dependency", "dependent", False), ("dependency", "dependency", False), ("dependency", "collection", True),
         ("member", "collection", False), ("member", "member", False), ("evaluation", "member_container", True)]

NONE = (None, -1)


def broken(db, trial):
    """[(kind, text)]: items of a trial that refer to what is not there.

    Activation 0 is the one of the `now` command itself, which has no row."""
    trial_id = trial["id"]
    items = {}
    for table in TABLES[1:-2]:
        rows = [r for r in db[table] if r["trial_id"] == trial_id]
        items[table] = dict((r["id"], r) for r in rows)
        if len(items[table]) != len(rows):
            yield "twice-" + table, "%d rows, %d ids" % (len(rows), len(items[table]))
    for table, column, other, nullable in REFS:
        have = items[other]
        for row in items[table].values():
            value = row[column]
            if value in NONE:
                if not nullable:
                    yield "null-%s.%s" % (table, column), repr(row)
                continue
            if other == "activation" and value == 0:
                continue
            if table == "module":
                value = int(value)
            if value not in have:
                yield "dangling-%s.%s" % (table, column), repr(row)
    for table, name, nullable in PAIRS:
        for row in items[table].values():
            act, ident = row[name + "_activation_id"], row[name + "_id"]
            if ident in NONE:
                if not nullable:
                    yield "null-%s.%s" % (table, name), repr(row)
                continue
            found = items["evaluation"].get(ident)
            if found is None:
                yield "dangling-%s.%s" % (table, name), repr(row)
            elif found["activation_id"] != act:
                yield "mismatch-%s.%s" % (table, name), "%r names %r" % (row, found)
    if trial["main_id"] in NONE or trial["main_id"] not in items["code_block"]:
        yield "main", repr(trial)
    for row in items["activation"].values():
        if row["id"] in items["evaluation"] and items["evaluation"][row["id"]]["checkpoint"] is None:
            yield "unclosed-activation", repr(row)
    trials = dict((t["id"], t) for t in db["trial"])
    for column in ("modules_inherited_from_trial_id", "parent_id"):
        if trial[column] is not None and trial[column] not in trials:
            yield "dangling-trial." + column, repr(trial)


def hashes(db, trial_id):
    """{content hash: what mentions it} of a trial."""
    found = {}
    for row in db.of("code_block", trial_id):
        if row["code_hash"]:
            found.setdefault(row["code_hash"], "code_block %s" % row["id"])
    for row in db.of("file_access", trial_id):
        for column in ("content_hash_before", "content_hash_after"):
            if row[column]:
                found.setdefault(row[column], "%s of %s" % (column, row["name"]))
    return found


def main_hash(db, trial):
    for row in db.of("code_block", trial["id"]):
        if row["id"] == trial["main_id"]:
            return row["code_hash"]
    return None


def modules(db, trial):
    """[(module row, code hash)] of a trial, inherited ones included."""
    trial_id = trial["modules_inherited_from_trial_id"] or trial["id"]
    found = []
    for one in sorted(set([trial_id, trial["id"]])):
        blocks = dict((r["id"], r) for r in db.of("code_block", one))
        for row in db.of("module", one):
            block = blocks.get(int(row["code_block_id"])) if row["code_block_id"] not in NONE else None
            found.append((row, block and block["code_hash"]))
    return found
