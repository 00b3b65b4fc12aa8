"""C40: downloading a case never overwrites, fetches every file once, and reports what failed."""
import contextlib
import io
import os
import tempfile
from pathlib import Path

from engine import symstr as S
from engine.runner import Scenario

from .C37 import same
from .C39 import digits

HTML = "https://opendap.4tu.nl/thredds/catalog/data2/x/1/catalog.html"


class Web:
    """a server whose every answer may fail; statuses are arbitrary"""

    def __init__(self, h, catalog, extra):
        self.h, self.catalog, self.extra, self.asked, self.status, self.closed = h, catalog, extra, [], [], []

    def get(self, url, **kw):
        import requests
        k = len(self.asked)
        self.asked.append(url)
        h = self.h
        st = h.integer(f"status{k}", 200, 599)
        h.assume(h.lor(st == 200, st >= 400))
        self.status.append(st)
        web = self

        class Answer:
            status_code, headers, encoding = st, {}, None
            raw = io.BytesIO(web.body(url))
            content = web.body(url)
            text = ""

            @property
            def ok(self):
                return st < 400

            def raise_for_status(self):
                if st >= 400:
                    raise requests.HTTPError(f"{k}: status of {url}")

            def iter_content(self, chunk_size=None, **kw):
                yield web.body(url)

            def json(self):
                return {"custom_fields": [{"name": "Organizations", "value": ["x"]}, {"name": "Data Link", "value": [HTML]}],
                        "files": [{"name": n, "download_url": u, "size": 3} for n, u in web.extra.items()]}

            def __enter__(self):
                return self

            def __exit__(self, *a):
                self.close()

            def close(self):
                web.closed.append(url)
        return Answer()

    def body(self, url):
        return f"data of {url}".encode()

    def links(self, url, *a, **kw):
        self.asked.append(url)
        self.status.append(200)
        return list(self.catalog)


@contextlib.contextmanager
def world(h, catalog, extra, existing):
    from wam2layers import download as D
    web = Web(h, catalog, extra)

    class Requests:
        get = staticmethod(web.get)

        def __getattr__(self, n):
            import requests
            return getattr(requests, n)

    class Thredds:
        download_urls = staticmethod(web.links)

    old = D.requests, D.threddsclient, os.getcwd()
    with tempfile.TemporaryDirectory() as tmp:
        os.chdir(tmp)
        if existing:
            Path("case").mkdir()
            (Path("case") / "mine.txt").write_text("mine")
        D.requests, D.threddsclient = Requests(), Thredds()
        try:
            yield web, Path(tmp)
        finally:
            D.requests, D.threddsclient = old[:2]
            os.chdir(old[2])


def tree(p):
    return {str(x.relative_to(p)): x.read_bytes() if x.is_file() else None for x in p.rglob("*")}


def fetch(counts):
    def fn(h):
        from wam2layers.download import download_from_doi
        n, m = h.choice("files", counts)
        catalog = [f"https://opendap.4tu.nl/thredds/fileServer/data2/x/1/f{k}.nc" for k in range(n)]
        extra = {f"extra{k}.yaml": f"https://data.4tu.nl/file/{k}/abc" for k in range(m)}
        existing = h.choice("existing", [False, True])
        with world(h, catalog, extra, existing) as (web, tmp):
            before = tree(tmp)
            try:
                download_from_doi("10.4121/bbe10a2a-39dc-4098-a69f-0f677d06ecdd.v1", "case")
                err = None
            except Exception as e:
                err = e
            after = tree(tmp)
        if existing:
            h.true("refuses to overwrite", isinstance(err, FileExistsError))
            h.true("asks for nothing", web.asked == [])
            h.true("changes nothing", after == before)
            h.reach()
            return
        fails = h.lor(False, *[s >= 400 for s in web.status])
        h.true("an answer that is an error is reported", fails if err is not None else h.lnot(fails))
        if err is None:
            want = {"case": None}
            want.update({f"case/{u.split('/')[-1]}": web.body(u) for u in catalog})
            want.update({f"case/{f}": web.body(u) for f, u in extra.items()})
            h.true("every file once, with its own content", after == want)
            h.true("no file asked for twice", all(web.asked.count(u) == 1 for u in catalog + list(extra.values())))
        h.true("the dataset of the DOI", web.asked[0] == "https://data.4tu.nl/v2/articles/bbe10a2a-39dc-4098-a69f-0f677d06ecdd")
        h.reach()
    return fn


def provider(h):
    from wam2layers.download import download_from_doi
    reg = digits(h, "registrant", h.choice("digits", [4, 5, 9]))
    with world(h, [], {}, False) as (web, tmp):
        before = tree(tmp)
        try:
            download_from_doi("https://doi.org/10." + reg + "/abc.v1", "case")
            err = None
        except requests_error():
            h.assume(False)
        except Exception as e:
            err = e
        after = tree(tmp)
    ours = same(h, reg, "4121") if len(reg) == 4 else False
    h.true("only the known provider is asked", h.lor(h.land(ours, err is None), h.land(h.lnot(ours), err is not None)))
    if err is not None:
        h.true("nothing asked for or made", web.asked == [] and before == after)
    h.reach()


def requests_error():
    import requests
    return requests.HTTPError


SCENARIOS = [Scenario("fetch", fetch([(0, 0), (2, 1), (1, 2)]), "up to 3 files, any answer to every request, target there or not"),
             Scenario("provider", provider, "any registrant of 4, 5 or 9 digits"),
             Scenario("fetch-more", fetch([(4, 3)]), "7 files", thorough_only=True)]
ASSUMPTIONS = ["answers are 200 or errors (400 to 599); the catalogue is read by threddsclient"]
OUTSIDE = "connections that break off in the middle; names that contain folders"
