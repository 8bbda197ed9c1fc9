# more fix commits, and the findings recorded instead of repaired (read by known.py)
PROP.update({
    "print statements space items": "C24",
    "LOAD_METHOD raises what": "C23",
    "attributes im_func and im_self": "C23",
    "methods have the attributes of their function": "C23",
    "imports use the __import__": "C21",
    "importing sys does not bind": "C21",
    "star imports obey": "C21",
    "from-imports look a name up once": "C21",
    "unsupported versions are refused with PyVMError": "C15",
    "PRINT_EXPR shows the value": "C15",
})
KNOWN = []
for _v in ("2.7", "3.12"):
    KNOWN.append(("C13", _v + "/throw", "behaviour", "generators have no throw(): generator.throw(E1('t')) raises AttributeError"))
    KNOWN.append(("C13", _v + "/close", "behaviour", "generators have no close(): generator.close() raises AttributeError"))

_async35 = "3.5 3.6 3.7 3.8 3.9 3.10 pypy3.5 pypy3.6 pypy3.7 pypy3.8 pypy3.9".split()
for _name, _label, _vs in [
    ("BEFORE_ASYNC_WITH", "implemented", _async35 + ["3.11", "3.12"]),
    ("GET_AWAITABLE", "implemented", _async35),
    ("SETUP_ASYNC_WITH", "accepted", ["3.5", "pypy3.5"]),
    ("END_ASYNC_FOR", "implemented", ["3.8", "3.9", "3.10", "3.11", "3.12", "pypy3.8", "pypy3.9"]),
    ("COPY_DICT_WITHOUT_KEYS", "implemented", ["3.10"]),
    ("MATCH_KEYS", "implemented", ["3.10", "3.11", "3.12"]),
    ("MATCH_MAPPING", "implemented", ["3.10", "3.11", "3.12"]),
    ("MATCH_SEQUENCE", "implemented", ["3.10", "3.11", "3.12"]),
    ("ASYNC_GEN_WRAP", "accepted", ["3.11"]),
    ("CHECK_EG_MATCH", "accepted", ["3.11", "3.12"]),
    ("PREP_RERAISE_STAR", "accepted", ["3.11"]),
    ("CALL_INTRINSIC_2", "accepted", ["3.12"]),
    ("CLEANUP_THROW", "implemented", ["3.12"]),
]:
    for _v in _vs:
        KNOWN.append(("C15", "%s/defined-%s" % (_v, _name), _label, "%s defines %s, which the interpreter does not implement" % (_v, _name)))
for _i in (4, 7, 8, 9, 10, 11):
    KNOWN.append(("C15", "3.12/defined-CALL_INTRINSIC_1", "implemented-%d" % _i, "3.12 defines CALL_INTRINSIC_1 %d, which the interpreter does not implement" % _i))
PROP.update({"a traced run reports the program's failure": "C18", "running a string reports the program's failure": "C18",
             "a traced interpreter can be made": "C18", "restores the host's whole argv": "C19", "running a module finds the module": "C19",
             "an uncaught exception is reported whatever": "C18", "runs out of stack space leaves": "C28", "running out of stack space in binding": "C28",
             "a traceback lists the frame of every": "C18", "a generator that can't be resumed": "C28"})
PROP.update({"the line number of a frame follows": "C17", "an exception in a frame which is not traced": "C16", "a breakpoint does not change": "C16"})
PROP.update({"names of a class body are looked up": "C20", "a class statement makes the class": "C20", "are not plain methods": "C20",
             "Python 2 classes are made by their metaclass": "C20", "does not change the namespace given": "C20",
             "storing a name does not ask": "C20", "logging an instruction neither": "C25",
             "use the namespaces of the program": "C26"})
PROP.update({"ends with an empty StopIteration": "C13", "comprehension in a class body reads": "C27", "while another is handled": "C11"})
