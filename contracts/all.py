"""registry of all contracts"""
import importlib
MODULES = ["faults", "ops", "triggers", "torn", "commands", "leaf", "page", "engine", "cache", "files", "config"]
import os
CONSTS = {"IO_BLOCK_SIZE": int(os.environ.get("CPPVC_BS", "4096")), "DISK_SECTOR_SIZE": 512}
ASSUMPTIONS = [
    "backing file system calls behave as POSIX; reads and writes are complete (no short transfers); memory allocation succeeds",
    "operations run one at a time: std::atomic and shared state are treated sequentially (locking discipline itself is checked by C18)",
    "sizes and offsets stay below 2^62, files have fewer than 2^31 blocks, a truncate grows a file by at most 2^31-1 bytes",
    "the kernel looks a path up (getattr) before it operates on it; direct_io is not set; block size at least 2",
    "logging (spdlog) has no effect on the state"]
def registry():
    reg = {}
    for m in MODULES:
        for c in importlib.import_module("contracts." + m).contracts(): reg[c.name] = c
    return reg
