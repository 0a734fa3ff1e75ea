"""Models of the libraries around the pipeline, interpreted (never executed) by the analyser.

They record what would happen outside the process (`_event`): files read and written, lines logged, programs' arguments.
`_event`, `_unknown`, `_percent`, `_listdir`, `_argv`, `_isdir` are supplied by the analyser.
"""

# ------------------------------------------------------------------ logging
DEBUG, INFO, WARN, ERROR, CRITICAL, NOTSET = 10, 20, 30, 40, 50, 0
_names = {10: "DEBUG", 20: "INFO", 30: "WARNING", 40: "ERROR", 50: "CRITICAL", 0: "NOTSET"}
_loggers = {}
RESERVED = ("name", "msg", "args", "levelname", "levelno", "pathname", "filename", "module", "exc_info", "exc_text", "stack_info", "lineno", "funcName",
            "created", "msecs", "relativeCreated", "thread", "threadName", "processName", "process", "message", "asctime", "taskName")


def addLevelName(level, name):
    _names[level] = name


def getLevelName(level):
    if level in _names:
        return _names[level]
    return "Level %s" % level


class LogRecord:
    def __init__(self, name, level, pathname, lineno, msg, args, exc_info, func=None, sinfo=None):
        self.name = name
        self.msg = msg
        self.args = args
        self.levelname = getLevelName(level)
        self.levelno = level
        self.pathname = pathname
        self.filename = _unknown("file of the log call")
        self.module = _unknown("module of the log call")
        self.exc_info = exc_info
        self.exc_text = None
        self.stack_info = sinfo
        self.lineno = _unknown_int("line of the log call")
        self.funcName = func
        self.created = _unknown_int("time of the log call")
        self.msecs = 0
        self.relativeCreated = 0
        self.thread = 1
        self.threadName = "MainThread"
        self.processName = "MainProcess"
        self.process = 1
        self.taskName = None

    def getMessage(self):
        msg = str(self.msg)
        if self.args:
            msg = msg % self.args
        return msg


def makeLogRecord(d):
    rv = LogRecord(None, None, "", 0, "", (), None, None)
    for k, v in d.items():
        setattr(rv, k, v)
    return rv


class Formatter:
    default_time_format = "%Y-%m-%d %H:%M:%S"

    def __init__(self, fmt=None, datefmt=None, style="%", validate=True, *, defaults=None):
        if style not in ("%", "{", "$"):
            raise ValueError("Style must be one of: %, {, $")
        if style != "%":
            _event("unmodelled", what="logging style")
        if fmt is not None and validate and not _percent_valid(fmt):
            raise ValueError("Invalid format '%s' for '%s' style" % (fmt, style))
        self._fmt = fmt if fmt else "%(message)s"
        self.datefmt = datefmt

    def formatTime(self, record, datefmt=None):
        return _unknown("formatted time")

    def usesTime(self):
        return "%(asctime)" in self._fmt

    def formatMessage(self, record):
        return _percent(self._fmt, record)

    def format(self, record):
        record.message = record.getMessage()
        if self.usesTime():
            record.asctime = self.formatTime(record, self.datefmt)
        return self.formatMessage(record)


class Filterer:
    pass


class Handler:
    def __init__(self, level=0):
        self.level = level
        self.formatter = None
        self.filters = []
        self._name = None

    def setLevel(self, level):
        self.level = level

    def setFormatter(self, fmt):
        self.formatter = fmt

    def addFilter(self, f):
        self.filters.append(f)

    def createLock(self):
        pass

    def acquire(self):
        pass

    def release(self):
        pass

    def format(self, record):
        fmt = self.formatter if self.formatter is not None else Formatter()
        return fmt.format(record)

    def emit(self, record):
        raise NotImplementedError("emit must be implemented by Handler subclasses")

    def handle(self, record):
        self.emit(record)
        return record

    def handleError(self, record):
        _event("log_error", record=record)

    def flush(self):
        pass

    def close(self):
        pass


class StreamHandler(Handler):
    terminator = "\n"

    def __init__(self, stream=None):
        Handler.__init__(self)
        self.stream = stream

    def emit(self, record):
        try:
            text = self.format(record)
        except Exception as e:
            _event("log_error", record=record, error=e, handler=self)
            return
        _event("log_line", record=record, text=text, handler=self)


class FileHandler(StreamHandler):
    def __init__(self, filename, mode="a", encoding=None, delay=False):
        StreamHandler.__init__(self)
        _event("fs_write", path=str(filename), how="logging.FileHandler")


class NullHandler(Handler):
    def handle(self, record):
        pass

    def emit(self, record):
        pass


class BufferingHandler(Handler):
    def __init__(self, capacity):
        Handler.__init__(self)
        self.capacity = capacity
        self.buffer = []

    def shouldFlush(self, record):
        return len(self.buffer) >= self.capacity

    def emit(self, record):
        self.buffer.append(record)
        if self.shouldFlush(record):
            self.flush()

    def flush(self):
        self.buffer.clear()

    def close(self):
        self.flush()


class Logger:
    def __init__(self, name, level=0):
        self.name = name
        self.level = level
        self.handlers = []
        self.propagate = True
        self.disabled = False
        self.filters = []

    @property
    def parent(self):
        if self.name == "root":
            return None
        parts = self.name.split(".")[:-1]
        while parts:
            n = ".".join(parts)
            if n in _loggers:
                return _loggers[n]
            parts = parts[:-1]
        return getLogger()

    def getChild(self, suffix):
        return getLogger(self.name + "." + suffix)

    def setLevel(self, level):
        self.level = level

    def getEffectiveLevel(self):
        lg = self
        while lg is not None:
            if lg.level:
                return lg.level
            lg = lg.parent
        return 0

    def isEnabledFor(self, level):
        return not self.disabled and level >= self.getEffectiveLevel()

    def addHandler(self, h):
        if not any(x is h for x in self.handlers):
            self.handlers.append(h)

    def removeHandler(self, h):
        if any(x is h for x in self.handlers):
            self.handlers = [x for x in self.handlers if x is not h]

    def hasHandlers(self):
        lg = self
        while lg is not None:
            if lg.handlers:
                return True
            lg = lg.parent
        return False

    def addFilter(self, f):
        self.filters.append(f)

    def debug(self, msg, *args, **kwargs):
        self._log(DEBUG, msg, args, **kwargs)

    def info(self, msg, *args, **kwargs):
        self._log(INFO, msg, args, **kwargs)

    def warning(self, msg, *args, **kwargs):
        self._log(WARN, msg, args, **kwargs)

    def warn(self, msg, *args, **kwargs):
        self._log(WARN, msg, args, **kwargs)

    def error(self, msg, *args, **kwargs):
        self._log(ERROR, msg, args, **kwargs)

    def exception(self, msg, *args, exc_info=True, **kwargs):
        self._log(ERROR, msg, args, **kwargs)

    def critical(self, msg, *args, **kwargs):
        self._log(CRITICAL, msg, args, **kwargs)

    def log(self, level, msg, *args, **kwargs):
        self._log(level, msg, args, **kwargs)

    def _log(self, level, msg, args, exc_info=None, extra=None, stack_info=False, stacklevel=1):
        _log_call(level, msg, args, extra, self)
        if not self.isEnabledFor(level):
            return
        if args and len(args) == 1 and isinstance(args[0], dict) and args[0]:
            args = args[0]
        record = LogRecord(self.name, level, "?", 0, msg, args, exc_info)
        if extra is not None:
            for key in extra:
                if key in RESERVED:
                    raise KeyError("Attempt to overwrite %r in LogRecord" % key)
                setattr(record, key, extra[key])
        self.handle(record)

    def handle(self, record):
        if not self.disabled:
            self.callHandlers(record)

    def callHandlers(self, record):
        lg = self
        found = 0
        while lg is not None:
            for h in lg.handlers:
                found += 1
                if record.levelno >= h.level:
                    h.handle(record)
            if not lg.propagate:
                return
            lg = lg.parent
        if not found and record.levelno >= WARN:
            _event("log_line", record=record, text=record.getMessage(), handler=None)


def getLogger(name=None):
    name = name or "root"
    if name not in _loggers:
        _loggers[name] = Logger(name, WARN if name == "root" else 0)
    return _loggers[name]


# ------------------------------------------------------------------ pathlib
def _clean(s):
    out = []
    for p in s.split("/"):
        if p and p != ".":
            out.append(p)
    r = "/".join(out)
    if s.startswith("/"):
        r = "/" + r
    return r or "."


class Path:
    def __init__(self, *parts):
        s = ""
        for p in parts:
            t = p._p if isinstance(p, Path) else p
            if not isinstance(t, str):
                raise TypeError("argument should be a str or an os.PathLike object")
            s = t if t.startswith("/") or not s else s + "/" + t
        self._p = _clean(s)

    def __str__(self):
        return self._p

    def __repr__(self):
        return "PosixPath(%r)" % self._p

    def __fspath__(self):
        return self._p

    def __eq__(self, other):
        return isinstance(other, Path) and self._p == other._p

    def __hash__(self):
        return hash(self._p)

    def __lt__(self, other):
        return self._p < other._p

    def __truediv__(self, other):
        return Path(self, other)

    def __rtruediv__(self, other):
        return Path(other, self)

    def joinpath(self, *others):
        return Path(self, *others)

    def as_posix(self):
        return self._p

    @property
    def name(self):
        n = self._p.split("/")[-1]
        return "" if n == "." else n

    @property
    def suffix(self):
        n = self.name
        i = n.rfind(".")
        return n[i:] if 0 < i < len(n) - 1 else ""

    @property
    def stem(self):
        n = self.name
        i = n.rfind(".")
        return n[:i] if 0 < i < len(n) - 1 else n

    @property
    def parent(self):
        i = self._p.rfind("/")
        if i < 0:
            return Path(".")
        return Path(self._p[:i] or "/")

    @property
    def parts(self):
        return tuple(self._p.split("/"))

    def with_name(self, name):
        return self.parent / name

    def with_suffix(self, suffix):
        return self.parent / (self.stem + suffix)

    def is_absolute(self):
        return self._p.startswith("/")

    def absolute(self):
        return self if self.is_absolute() else Path("/cwd") / self

    def expanduser(self):
        return self

    def resolve(self, strict=False):
        out = []
        for p in self.absolute()._p.split("/"):
            if p == "..":
                out = out[:-1]
            elif p:
                out.append(p)
        return Path("/" + "/".join(out))

    def relative_to(self, other):
        o = str(other)
        if o == ".":
            return self
        if self._p == o:
            return Path(".")
        if not self._p.startswith(o + "/"):
            raise ValueError("%r is not in the subpath of %r" % (self._p, o))
        return Path(self._p[len(o) + 1:])

    @classmethod
    def cwd(cls):
        return Path("/cwd")

    def exists(self):
        _event("fs_stat", path=self._p)
        return _isdir(self._p)

    def is_file(self):
        _event("fs_stat", path=self._p)
        return _isdir(self._p)

    def is_dir(self):
        _event("fs_stat", path=self._p)
        return _isdir(self._p)

    def iterdir(self):
        return [self / n for n in _listdir(self._p)]

    def glob(self, pattern):
        return [self / n for n in _listdir(self._p) if _fnmatch(n, pattern)]

    def open(self, mode="r", *args, **kwargs):
        return open_(self._p, mode)

    def read_text(self, encoding=None, errors=None):
        return open_(self._p, "r").read()

    def read_bytes(self):
        return open_(self._p, "rb").read()

    def write_text(self, data, encoding=None, errors=None, newline=None):
        return open_(self._p, "w").write(data)

    def write_bytes(self, data):
        return open_(self._p, "wb").write(data)

    def touch(self, mode=0, exist_ok=True):
        _event("fs_write", path=self._p, how="Path.touch")

    def mkdir(self, mode=0, parents=False, exist_ok=False):
        _event("fs_write", path=self._p, how="Path.mkdir")

    def unlink(self, missing_ok=False):
        _event("fs_write", path=self._p, how="Path.unlink")

    def rmdir(self):
        _event("fs_write", path=self._p, how="Path.rmdir")

    def rename(self, target):
        _event("fs_write", path=self._p, how="Path.rename")
        _event("fs_write", path=str(target), how="Path.rename")

    def replace(self, target):
        self.rename(target)


class File:
    def __init__(self, path, mode):
        self.name = path
        self.mode = mode
        self.closed = False

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.closed = True
        return False

    def close(self):
        self.closed = True

    def read(self, n=-1):
        return _unknown("contents of " + self.name)

    def readlines(self):
        return self.read().split("\n")

    def __iter__(self):
        return iter(self.readlines())

    def write(self, s):
        return len(s)

    def writelines(self, lines):
        pass

    def flush(self):
        pass


def open_(file, mode="r", *args, **kwargs):
    path = _clean(file._p if isinstance(file, Path) else file)
    if "w" in mode or "a" in mode or "x" in mode or "+" in mode:
        _event("fs_write", path=path, how="open(..., " + mode + ")")
    else:
        _event("fs_read", path=path, how="open")
    return File(path, mode)


# ------------------------------------------------------------------ fs (PyFilesystem)
class FS:
    def _at(self, path):
        raise NotImplementedError("_at")

    def __enter__(self):
        return self

    def __exit__(self, a, b, c):
        self.close()
        return False

    def close(self):
        pass

    def appendtext(self, path, contents, encoding="utf-8", errors=None, newline=""):
        self.writetext(path, contents)

    def writebytes(self, path, contents):
        self.writetext(path, contents)


class OSFS(FS):
    def __init__(self, root_path, create=False, **kwargs):
        root = str(root_path)
        self.root = _clean(root[7:] if root.startswith("osfs://") else root)
        if create:
            _event("fs_write", path=self.root, how="OSFS(create=True)")

    def _at(self, path):
        return _clean(self.root + "/" + path)

    def listdir(self, path):
        _event("fs_read", path=self._at(path), how="listdir")
        return _listdir(self._at(path))

    def exists(self, path):
        _event("fs_stat", path=self._at(path))
        return _isdir(self._at(path))

    def isfile(self, path):
        return self.exists(path)

    def isdir(self, path):
        return self.exists(path)

    def readtext(self, path, encoding=None, errors=None, newline=""):
        return open_(self._at(path)).read()

    def writetext(self, path, contents, encoding="utf-8", errors=None, newline=""):
        _event("fs_write", path=self._at(path), how="writetext", data=contents)

    def makedir(self, path, permissions=None, recreate=False):
        _event("fs_write", path=self._at(path), how="makedir")
        return OSFS(self._at(path))

    makedirs = makedir

    def remove(self, path):
        _event("fs_write", path=self._at(path), how="remove")

    def removetree(self, path):
        _event("fs_write", path=self._at(path), how="removetree")

    def open(self, path, mode="r", *args, **kwargs):
        return open_(self._at(path), mode)

    def opendir(self, path):
        return OSFS(self._at(path))


class MemFS(FS):
    """A file system in memory: what is written to it stays inside the process."""

    def __init__(self):
        self.files = {}
        self.dirs = []

    def _at(self, path):
        return _clean(path)

    def makedir(self, path, permissions=None, recreate=False):
        if self._at(path) in self.dirs and not recreate:
            raise DirectoryExists("resource '%s' exists" % path)
        self.dirs.append(self._at(path))
        return self

    def makedirs(self, path, permissions=None, recreate=False):
        return self.makedir(path, permissions, True)

    def writetext(self, path, contents, encoding="utf-8", errors=None, newline=""):
        if not isinstance(contents, str):
            raise TypeError("contents must be str")
        self._need(self._at(path))
        self.files[self._at(path)] = contents

    def settext(self, path, contents, encoding="utf-8", errors=None, newline=""):
        self.writetext(path, contents)

    def _need(self, path):
        i = path.rfind("/")
        if i > 0 and path[:i] not in self.dirs:
            raise ResourceNotFound("resource '%s' not found" % path)

    def readtext(self, path, encoding=None, errors=None, newline=""):
        return self.files[self._at(path)]

    def exists(self, path):
        return self._at(path) in self.files or self._at(path) in self.dirs

    def isfile(self, path):
        return self._at(path) in self.files

    def isdir(self, path):
        return self._at(path) in self.dirs

    def listdir(self, path):
        p = self._at(path)
        pre = "" if p in (".", "/") else p + "/"
        return [n[len(pre):].split("/")[0] for n in list(self.files) + self.dirs if n.startswith(pre)]

    def remove(self, path):
        del self.files[self._at(path)]


class MountFS(MemFS):
    """Only mounted file systems reach the disk; nothing but a memory file system is mounted by default."""

    def __init__(self, auto_close=True):
        MemFS.__init__(self)

    def mount(self, path, fs):
        _event("mount", path=path, fs=fs)


class FSError(Exception):
    pass


class ResourceNotFound(FSError):
    pass


class DirectoryExists(FSError):
    pass


class Copied:
    """The contents of a file of the disk."""

    def __init__(self, path):
        self.path = path


def open_fs(fs_url, writeable=True, create=False, cwd=".", default_protocol="osfs"):
    if isinstance(fs_url, FS):
        return fs_url
    url = str(fs_url)
    if url.startswith("mem://") or url.startswith("temp://"):
        return MemFS()
    if not url.startswith("/") and not url.startswith("osfs://"):
        url = cwd + "/" + url
    return OSFS(url, create)


def copy_file(src_fs, src_path, dst_fs, dst_path, preserve_time=False):
    s, d = open_fs(src_fs), open_fs(dst_fs)
    if isinstance(s, OSFS):
        _event("fs_read", path=s._at(src_path), how="copy_file")
        data = Copied(s._at(src_path))
    else:
        data = s.files[s._at(src_path)]
    if isinstance(d, OSFS):
        _event("fs_write", path=d._at(dst_path), how="copy_file", data=data)
    else:
        d._need(d._at(dst_path))
        d.files[d._at(dst_path)] = data


def copy_fs(src_fs, dst_fs, walker=None, on_copy=None, workers=0, preserve_time=False):
    s, d = open_fs(src_fs), open_fs(dst_fs, create=True)
    if isinstance(s, OSFS):
        _event("fs_read", path=s.root, how="copy_fs")
        if isinstance(d, OSFS):
            _event("fs_write", path=d.root, how="copy_fs of " + s.root)
        return
    for n in s.files:
        if isinstance(d, OSFS):
            _event("fs_write", path=d._at(n), how="copy_fs", data=s.files[n])
        else:
            d.files[n] = s.files[n]


def copy_dir(src_fs, src_path, dst_fs, dst_path, *args, **kwargs):
    s, d = open_fs(src_fs), open_fs(dst_fs)
    for n in s.listdir(src_path):
        copy_file(s, src_path + "/" + n, d, dst_path + "/" + n)


# ------------------------------------------------------------------ argparse
class Namespace:
    def __init__(self, **kwargs):
        for k, v in kwargs.items():
            setattr(self, k, v)


class ArgumentError(Exception):
    pass


class _Option:
    def __init__(self, names, dest, action, default, choices, const, type, nargs, required):
        self.names = names
        self.dest = dest
        self.action = action
        self.default = default
        self.choices = choices
        self.const = const
        self.type = type
        self.nargs = nargs
        self.required = required


class _Group:
    def __init__(self, parser):
        self._parser = parser

    def add_argument(self, *names, **kwargs):
        return self._parser.add_argument(*names, **kwargs)

    def add_argument_group(self, *args, **kwargs):
        return self


class ArgumentParser:
    def __init__(self, *args, **kwargs):
        self._options = []
        self._defaults = {}

    def add_argument_group(self, *args, **kwargs):
        return _Group(self)

    def add_mutually_exclusive_group(self, *args, **kwargs):
        return _Group(self)

    def add_argument(self, *names, action="store", default=None, choices=None, const=None, dest=None, type=None, help=None, nargs=None, required=False, version=None, metavar=None):
        if dest is None:
            longs = [n for n in names if n.startswith("--")]
            first = longs[0] if longs else names[0]
            while first.startswith("-"):
                first = first[1:]
            dest = first.replace("-", "_")
        for o in self._options:
            for n in names:
                if n in o.names:
                    raise ArgumentError("conflicting option string: " + n)
        if action == "store_true" and default is None:
            default = False
        if action == "store_false" and default is None:
            default = True
        o = _Option(names, dest, action, default, choices, const, type, nargs, required)
        self._options.append(o)
        return o

    def set_defaults(self, **kwargs):
        for k, v in kwargs.items():
            self._defaults[k] = v

    def error(self, message):
        raise SystemExit(2)

    def _find(self, name):
        hits = [o for o in self._options if name in o.names]
        if not hits and name.startswith("--"):
            hits = [o for o in self._options if any(n.startswith(name) for n in o.names)]
            if len(hits) > 1:
                hits = []
        if not hits:
            self.error("unrecognized arguments: " + name)
        return hits[0]

    def parse_known_args(self, args=None, namespace=None):
        return self.parse_args(args, namespace), []

    def parse_args(self, args=None, namespace=None):
        todo = list(_argv() if args is None else args)
        ns = Namespace()
        for o in self._options:
            if o.action in ("version", "help"):
                continue
            setattr(ns, o.dest, self._defaults[o.dest] if o.dest in self._defaults else o.default)
        for k, v in self._defaults.items():
            setattr(ns, k, v)
        positional = [o for o in self._options if not o.names[0].startswith("-")]
        while todo:
            t = todo.pop(0)
            if t.startswith("--") and len(t) > 2:
                name, eq, val = t.partition("=")
                self._apply(ns, self._find(name), [val] if eq else todo)
            elif t.startswith("-") and len(t) > 1:
                for i in range(1, len(t)):
                    o = self._find("-" + t[i])
                    if o.action == "store":
                        self._apply(ns, o, [t[i + 1:]] if t[i + 1:] else todo)
                        break
                    self._apply(ns, o, todo)
            else:
                if not positional:
                    self.error("unrecognized arguments")
                self._apply(ns, positional.pop(0), [t])
        if positional and positional[0].nargs not in ("?", "*"):
            self.error("the following arguments are required")
        return ns

    def _apply(self, ns, o, rest):
        if o.action == "store_true":
            setattr(ns, o.dest, True)
        elif o.action == "store_false":
            setattr(ns, o.dest, False)
        elif o.action == "store_const":
            setattr(ns, o.dest, o.const)
        elif o.action == "count":
            setattr(ns, o.dest, (getattr(ns, o.dest) or 0) + 1)
        elif o.action in ("version", "help"):
            raise SystemExit(0)
        else:
            if not rest:
                self.error("expected one argument")
            v = rest.pop(0)
            if o.type is not None:
                v = o.type(v)
            if o.choices is not None and v not in o.choices:
                self.error("invalid choice")
            if o.action == "append":
                setattr(ns, o.dest, (getattr(ns, o.dest) or []) + [v])
            else:
                setattr(ns, o.dest, v)
