RULE = ("random sequences of allocation, freeing, dropping of region handles, moving, copying, cutting (MemoryRegion/PinnedBuffer), of resize/shrink/expand "
        "(SmartBuffer<1..512>, StaticBuffer) and of RedisRequest building; every live buffer is compared with a shadow copy after every step, addresses checked "
        "for overlap, regions for release after their last user. Non-trivial: distinct operation traces")
TECHNIQUE = "ASan/UBSan build with shadow-memory contents, overlap and lifetime monitors over random operation sequences"
NOTE = "Sampled operation sequences; single-threaded, as the allocators are used by one connection"


def run(c):
    exe = c.build("c26_mem", ["c26_mem.cc"], "asan")
    c.run(exe, "mem", timeout=c.n(200, 1500))
