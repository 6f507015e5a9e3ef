"""URLs composed from known parts."""
from __future__ import annotations

from urllib.parse import quote

from hypothesis import strategies as st

hosts = st.sampled_from(["localhost", "db.example.com", "10.0.0.7", "h", "my-host.internal", "127.0.0.1", "[::1]", "[2001:db8::7]", "a_b.c"])
users = st.one_of(st.sampled_from(["u", "bob", "a@b", "x:y", "Ünï", "per%cent", "a/b?c#d", "sp ace", "+plus+", "%40"]),
                  st.text(st.characters(blacklist_categories=("Cs", "Cc")), min_size=1, max_size=5))
ports = st.one_of(st.none(), st.sampled_from([1, 80, 443, 3306, 5432, 9083, 65535]), st.integers(1, 65535))
# Path segments are taken literally.
segments = st.one_of(
    st.sampled_from(["a", "b", "public", "my-table", "t%20x", "A_1", "x.y", "ünï", "a b", "a@b", "a:b", "a+b", "a=b", "a&b", "~x", "(x)", "'q'", "%2e", "$1", "a,b"]),
    st.text(alphabet=st.sampled_from("abcAB01_-.~é%+@:&=$,!*'()"), min_size=1, max_size=5).filter(lambda s: s.strip(".")),
)


@st.composite
def authorities(draw, user=True):
    a = {"host": draw(hosts), "port": draw(ports), "user": None, "password": None}
    if user and draw(st.integers(0, 2)):
        a["user"] = draw(users)
        if draw(st.integers(0, 3)):
            a["password"] = draw(users)
    return a


def netloc(a):
    s = ""
    if a["user"] is not None:
        s = quote(a["user"], safe="")
        if a["password"] is not None:
            s += ":" + quote(a["password"], safe="")
        s += "@"
    return s + a["host"] + (f":{a['port']}" if a["port"] is not None else "")


def query(options):
    return "&".join(f"{quote(k, safe='')}={quote(v, safe='')}" for k, v in options)


def url(scheme, a, paths, options=(), tail=""):
    u = f"{scheme}://{netloc(a)}" + "".join("/" + p for p in paths) + tail
    return u + ("?" + query(options) if options else "")


def bare(host):
    return host.strip("[]")
