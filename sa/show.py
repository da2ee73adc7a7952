"""Print the canonical summary of one function (debugging aid)."""
import sys
import threading


def main(ids, root="/repo"):
    from .index import Project
    from . import evalr
    p = Project(root)
    names = {f.id for f in p.all_funcs()}
    for i in ids:
        cls = None
        if "@" in i:
            i, c = i.split("@")
            cls = p.cls(c)
        f = p.func(i)
        e = evalr.Ev(p, boundary=lambda g: g is not f and g.id in names)
        s = e.run(f, cls)
        print("==", f.where)
        print("ret:", s.ret)
        for k, v in sorted(s.heap.items()):
            print("  self.%s = %s" % (k, v))
        for x in s.log:
            print("  ", x)


if __name__ == "__main__":
    threading.stack_size(512 * 1024 * 1024)
    t = threading.Thread(target=main, args=(sys.argv[1:],))
    t.start()
    t.join()
