"""The package under test, imported once under the seams."""
import importlib
import os
import sys
import warnings

REPO = os.environ.get("NWSIM_REPO", "/repo")


def load():
    """Import noworkflow (and what it imports lazily) without using it."""
    warnings.simplefilter("ignore")
    from . import mp
    mp.install()
    import subprocess
    subprocess._USE_VFORK = False
    _hook_subprocess()
    capture = os.path.join(REPO, "capture")
    sys.path.insert(0, capture)
    import noworkflow
    if not os.path.realpath(noworkflow.__file__).startswith(os.path.realpath(capture) + os.sep):
        raise ImportError("noworkflow imported from %s" % noworkflow.__file__)
    import noworkflow.now.cmd  # noqa
    for name in ("plain_engine", "pygit_engine", "dulwich_engine", "puregit_engine", "gitdb_engine"):
        importlib.import_module("noworkflow.now.persistence.content." + name)
    for name in ("IPython", "IPython.terminal.embed", "noworkflow.now.persistence.models",
                 "noworkflow.now.vis.views", "noworkflow.now.utils.collab",
                 "noworkflow.now.models.graphs.trial_graph",
                 "noworkflow.now.models.graphs.history_graph",
                 "noworkflow.now.models.graphs.diff_graph", "modulefinder", "pdb", "encodings.idna",
                 "sqlalchemy.dialects.sqlite", "sqlite3", "json", "zipfile", "flask.testing", "uuid"):
        importlib.import_module(name)
    import sqlalchemy.orm
    sqlalchemy.orm.configure_mappers()
    _no_network()
    import platform
    platform.uname(), platform.architecture(), platform.processor()
    sys.path.remove(capture)


def _hook_subprocess():
    import subprocess
    from . import native
    real = subprocess.Popen.__init__

    def init(self, args, *rest, **kwargs):
        what = args if isinstance(args, str) else " ".join(str(a) for a in args)
        err = native.lib().sim_point(b"exec", what[:200].replace("\t", " ").encode("utf-8", "replace"), 0)
        if err:
            raise OSError(err, os.strerror(err))
        if native.lib().sim_is_on():
            import time
            env = dict(kwargs.get("env") or os.environ)
            env["GIT_AUTHOR_DATE"] = env["GIT_COMMITTER_DATE"] = "%d +0000" % int(time.time())
            kwargs["env"] = env
        return real(self, args, *rest, **kwargs)
    subprocess.Popen.__init__ = init


def _no_network():
    """No real sockets to other hosts from simulated processes."""


def now(*argv):
    """`now ...` as a simulated process would run it."""
    sys.argv = ["now"] + list(argv)
    sys.path.insert(0, os.getcwd())
    from noworkflow.now.cmd import main
    return main()
