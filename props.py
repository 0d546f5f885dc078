"""Which simulator binary, which packages and which budgets decide each property."""

RT = "Go runtime scheduler, clocks, select and map order (replaced by the simulator)"


def event(**kw):
    m = {"area": "event", "pkgs": ["event", "common/mclock"],
         "real": ["event", "common/mclock", "Go channels, select, sync, reflect, context and timers"],
         "stub": [RT]}
    m.update(kw)
    return m


def clock(**kw):
    m = {"area": "mclock", "pkgs": ["common/mclock"],
         "real": ["common/mclock", "Go channels, sync and timers"], "stub": [RT]}
    m.update(kw)
    return m


def logs(**kw):
    m = {"area": "log", "pkgs": ["log"], "zero": ("b",),
         "real": ["log", "github.com/go-stack/stack", "Go fmt, encoding/json, os.File, log/syslog, channels and sync"],
         "stub": [RT, "byte sinks", "disk, network connections and process exit"]}
    m.update(kw)
    return m


def crypt(**kw):
    m = {"area": "crypto", "pkgs": ["crypto", "crypto/sha3", "crypto/randentropy"], "zero": ("b",),
         "real": ["crypto", "crypto/sha3", "crypto/randentropy", "Go math/big, io, sync"],
         "stub": [RT, "entropy source and input readers"]}
    m.update(kw)
    return m


def commons(**kw):
    m = {"area": "common", "pkgs": ["common", "common/hexutil", "common/math", "common/compiler"], "zero": ("b",),
         "real": ["common", "common/hexutil", "common/math", "common/compiler", "golang.org/x/crypto/sha3", "Go os.File, encoding/json, time"],
         "stub": [RT, "disk and process lifetime"]}
    m.update(kw)
    return m


def rlp(**kw):
    m = {"area": "rlp", "pkgs": ["rlp/internal/rlpstruct", "rlp/rlpgen"], "zero": ("b",),
         "lib": [("rlp/rlpgen", "zzrlpgen", "rlpshim")],
         "real": ["rlp/internal/rlpstruct", "rlp/rlpgen (built as a library)", "Go go/types, go/format, reflect"],
         "stub": [RT, "the package rlp the generated code is for, which is not in the tree", "loading of packages"]}
    m.update(kw)
    return m


PROPS = {
    "C01": event(),
    "C02": event(),
    "C03": event(),
    "C04": event(),
    "C05": event(),
    "C06": event(),
    "C07": event(),
    "C08": event(),
    "C09": event(),
    "C10": clock(),
    "C11": clock(),
    "C12": clock(),
    "C13": logs(),
    "C14": logs(),
    "C15": logs(),
    "C16": logs(),
    "C17": logs(),
    "C18": logs(once=True),
    "C19": logs(),
    "C20": logs(),
    "C21": crypt(),
    "C22": crypt(once=True),
    "C23": crypt(),
    "C24": crypt(),
    "C25": commons(),
    "C26": commons(),
    "C27": commons(),
    "C28": commons(),
    "C29": commons(),
    "C30": crypt(),
    "C31": commons(),
    "C32": rlp(),
    "C33": rlp(),
    "C45": rlp(),
}
