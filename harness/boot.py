"""First import of every rank-side driver: pmesh comes from /repo's working tree,
its extension modules from the build made by this check (PMV_EXT), never from
whatever .so lies in /repo.  With PMV_SHIM=1 pfft gets the newer LocalBuffer API."""
import importlib.abc, importlib.machinery, importlib.util, json, os, sys, warnings
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")
REPO = os.environ.get("PMV_REPO", "/repo")
EXT = json.loads(os.environ.get("PMV_EXT", "{}"))

class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name.startswith("pmesh._"):
            mod = name.split(".", 1)[1]
            if mod in EXT:
                loader = importlib.machinery.ExtensionFileLoader(name, EXT[mod])
                return importlib.util.spec_from_file_location(name, EXT[mod], loader=loader)
        return None

sys.meta_path.insert(0, Finder())
sys.path[:] = [p for p in sys.path if os.path.abspath(p or ".") != REPO]
sys.path.insert(0, REPO)
if os.environ.get("PMV_SHIM") == "1":
    import pfftshim
    pfftshim.install()
if os.environ.get("PMV_COV"):
    # a tool for the author: which lines of the repository the drivers reach
    import atexit
    _seen = set()
    _m = sys.monitoring
    _m.use_tool_id(5, "pmv")
    def _line(code, line):
        if code.co_filename.startswith(REPO):
            _seen.add((code.co_filename[len(REPO) + 1:], line))
        return _m.DISABLE
    _m.register_callback(5, _m.events.LINE, _line)
    _m.set_events(5, _m.events.LINE)
    def _dump():
        with open(os.path.join(os.environ["PMV_COV"], "%d" % os.getpid()), "w") as f:
            f.writelines("%s:%d\n" % x for x in sorted(_seen))
    atexit.register(_dump)
