"""An installed reactpy that has its wheel: no build is needed to make a page."""
import atexit
import os
import shutil
import tempfile
import zipfile

import reactpy


def install():
    """-> the name of the wheel"""
    d = tempfile.mkdtemp(prefix="wheel.")
    pid = os.getpid()
    atexit.register(lambda: os.getpid() == pid and shutil.rmtree(d, ignore_errors=True))
    package = os.path.join(d, "lib", "site-packages", "reactpy")
    os.makedirs(os.path.join(package, "static", "wheels"))
    name = f"reactpy-{reactpy.__version__}-py3-none-any.whl"
    with zipfile.ZipFile(os.path.join(package, "static", "wheels", name), "w") as z:
        z.writestr("reactpy/__init__.py", "")
    reactpy.__file__ = os.path.join(package, "__init__.py")
    return name
