"""Entry point of the driver processes (run with the interpreter and the
environment of the code under test)."""
import importlib
import os
import resource
import sys
import traceback

resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))   # code that asks for ever more memory fails on its own
code = os.path.realpath(os.environ["VERIF_CODE"])
import clevercsv  # noqa
assert os.path.realpath(clevercsv.__file__).startswith(code), clevercsv.__file__
mod, fn = sys.argv[1].split(":")
import drv
d = drv.Driver()
try:
    getattr(importlib.import_module(mod), fn)(d)
except drv.Hang:
    d.violation("the code under test does not terminate", d.progress())
except Exception as e:
    # An exception the driver did not expect.  It is the code's if the code raised it on its own account; a name or an
    # attribute that is not there may be due to the driver.
    frames = traceback.extract_tb(e.__traceback__)
    if isinstance(e, (ImportError, AttributeError, NameError, AssertionError)) or \
            not os.path.realpath(frames[-1].filename).startswith(code):
        raise
    traceback.print_exc()
    d.violation("an exception that nothing allows is raised",
                dict(exception=type(e).__name__, message=str(e)[:300], at="%s:%s" % (os.path.basename(frames[-1].filename), frames[-1].name),
                     doing=d.progress()))
d.close()
