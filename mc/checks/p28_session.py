"""P28: the network session is configured exactly as requested."""
import base64
import datetime
import ipaddress
import itertools
import os
import re
import shutil
import socket
import ssl as ssllib
import tempfile
import threading
from urllib.parse import unquote

import spnego
import urllib3.connection as u3c

from mc import authnet, core, env, fakesock
from mc.core import need, same
from mc.env import W

PROP = "P28"
LEVEL = "exploration"
TECHNIQUE = "exhaustive enumeration of the products of configuration settings and environment variables, observed at the sockets (addresses, TLS settings, bytes) under the real requests and urllib3 stack, against a reference of the documented precedence; all interleaved pairs of configurations for isolation; all refusal counts for the retry budget"
LEVEL_NOTE = "Complete over the listed values: server spellings x TLS x ports x paths; explicit proxy x no_proxy x every combination of the four proxy variables in both spellings; validation setting x both bundle variables x proxy; client certificate x key password x proxy x TLS; credentials x methods; refusals 0-4 x retries 0-3 x backoff; every pair of eleven configurations in three orders. A set of cases runs over real TLS on the loopback."
RULE = "one evaluation = one configuration (or interleaved pair) used for two requests; non-trivial when a connection was opened or a refusal was required"
ASSUMPTIONS = ["the documented precedence: explicit settings, then no_proxy, then the environment", "requests' own reading of the proxy variables is followed for NO_PROXY matching"]

SOAP = '<s:Envelope xmlns:s="http://www.w3.org/2003/05/soap-envelope" xmlns:wsa="http://schemas.xmlsoap.org/ws/2004/08/addressing"><s:Header><wsa:RelatesTo>%s</wsa:RelatesTo></s:Header><s:Body><x/></s:Body></s:Envelope>'
VARS = ["http_proxy", "https_proxy", "all_proxy", "no_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY", "NO_PROXY", "REQUESTS_CA_BUNDLE", "CURL_CA_BUNDLE", "NETRC"]
_files = {}
_alone = {}


def files():
    """a certificate authority, bundles and client keys in a scratch directory of this process"""
    if _files.get("pid") == os.getpid():
        return _files
    from cryptography import x509
    from cryptography.hazmat.primitives import hashes, serialization
    from cryptography.x509.oid import NameOID
    d = tempfile.mkdtemp(prefix="p28-")
    keys = env.test_keys()
    t0, t1 = datetime.datetime(2020, 1, 1), datetime.datetime(2040, 1, 1)
    pem = serialization.Encoding.PEM

    def name(n):
        return x509.Name([x509.NameAttribute(NameOID.COMMON_NAME, n)])

    def write(n, data):
        p = os.path.join(d, n)
        with open(p, "wb") as f:
            f.write(data)
        return p

    def ca(n, key):
        return x509.CertificateBuilder().subject_name(name(n)).issuer_name(name(n)).public_key(key.public_key()).serial_number(11).not_valid_before(t0).not_valid_after(t1).add_extension(x509.BasicConstraints(True, None), True).add_extension(x509.SubjectKeyIdentifier.from_public_key(key.public_key()), False).add_extension(x509.KeyUsage(True, False, False, False, False, True, True, False, False), True).sign(key, hashes.SHA256())
    ca1, ca2 = ca("test ca one", keys[0]), ca("test ca two", keys[1])

    def leaf(issuer, ikey, names, n):
        key = keys[2]
        b = x509.CertificateBuilder().subject_name(name(n)).issuer_name(issuer.subject).public_key(key.public_key()).serial_number(12).not_valid_before(t0).not_valid_after(t1).add_extension(x509.BasicConstraints(False, None), True).add_extension(x509.SubjectAlternativeName(names), False).add_extension(x509.AuthorityKeyIdentifier.from_issuer_public_key(ikey.public_key()), False)
        return b.sign(ikey, hashes.SHA256()).public_bytes(pem)
    plain = keys[2].private_bytes(pem, serialization.PrivateFormat.PKCS8, serialization.NoEncryption())
    sealed = keys[2].private_bytes(pem, serialization.PrivateFormat.PKCS8, serialization.BestAvailableEncryption(b"k\xc3\xa9y pass"))
    r = {"pid": os.getpid(), "dir": d}
    r["ca1"] = write("ca1.pem", ca1.public_bytes(pem))
    r["ca2"] = write("ca2.pem", ca2.public_bytes(pem))
    r["both"] = write("both.pem", ca1.public_bytes(pem) + ca2.public_bytes(pem))
    good = leaf(ca1, keys[0], [x509.DNSName("localhost"), x509.IPAddress(ipaddress.ip_address("127.0.0.1"))], "localhost")
    r["srv"] = write("srv.pem", plain + good)
    r["srv-other-name"] = write("other.pem", plain + leaf(ca1, keys[0], [x509.DNSName("elsewhere.test")], "elsewhere.test"))
    r["cert"] = write("client.pem", leaf(ca1, keys[0], [x509.DNSName("user")], "user"))
    r["key"] = write("client.key", plain)
    r["locked"] = write("locked.key", sealed)
    r["password"] = "k\u00e9y pass"
    os.mkdir(os.path.join(d, "cadir"))
    r["cadir"] = os.path.join(d, "cadir")
    r["missing"] = os.path.join(d, "missing.pem")
    r["netrc"] = write("netrc", b"default login netuser password netpass\n")
    r["der"] = ca1.public_bytes(serialization.Encoding.DER)
    _files.clear()
    _files.update(r)
    return r


class Wire:
    """everything that reaches the network: connections, TLS handshakes and requests, with a server that answers"""

    def __init__(self, vars=None):
        self.events = []
        self.requests = 0
        self.refusals = 0
        self.answer = None        # callable(line, headers, body, tunnel) -> reply or None for the default
        self.conn_timeouts, self.read_timeouts = [], []
        self.saved = {k: os.environ.get(k) for k in VARS}
        for k in VARS:
            os.environ.pop(k, None)
        os.environ["NETRC"] = "/nonexistent/netrc"
        os.environ.update(vars or {})
        self.net = fakesock.Net(self.handler).install()
        fakesock.uc.create_connection = self.connect
        self.real_wrap = u3c.ssl_wrap_socket
        u3c.ssl_wrap_socket = self.wrap
        self.contexts = []
        self.plan = authnet.Plan()
        self.plan.lenient = True
        spnego.client = self.context

    def context(self, *a, **k):
        return authnet.Ctx(self, a, k)

    def connect(self, address, timeout=None, **kw):
        self.events.append(("connect", address[0].lower(), address[1]))
        self.conn_timeouts.append(timeout)
        if self.refusals:
            self.refusals -= 1
            raise ConnectionRefusedError(111, "refused")
        s = self.net.connect(address, timeout)
        s.tunnel = None
        s.mine = self
        s.checked = []
        wire = self

        class Peek(type(s)):
            def getpeercert(self, binary_form=False):
                if binary_form:
                    return files()["der"]
                self.checked.append(True)
                h = self.hostname
                try:
                    ipaddress.ip_address(h)
                    return {"subjectAltName": (("IP Address", h),)}
                except ValueError:
                    return {"subjectAltName": (("DNS", h),)}

            def settimeout(self, t):
                wire.read_timeouts.append(t)
                super().settimeout(20)
        s.__class__ = Peek
        return s

    def wrap(self, sock, keyfile=None, certfile=None, cert_reqs=None, ca_certs=None, server_hostname=None, ssl_version=None, ciphers=None, ssl_context=None, ca_cert_dir=None, key_password=None, ca_cert_data=None, tls_in_tls=False, **kw):
        if certfile and key_password is None and keyfile and b"ENCRYPTED" in open(keyfile, "rb").read():
            raise ssllib.SSLError("a password is needed for the key")
        sock.hostname = server_hostname
        self.events.append(("tls", server_hostname.lower(), {ssllib.CERT_NONE: "none", ssllib.CERT_OPTIONAL: "optional", ssllib.CERT_REQUIRED: "required"}[ssl_context.verify_mode], ca_certs, ca_cert_dir, ca_cert_data, certfile, keyfile, key_password))
        self.events.append(("host-checked", sock, ssl_context.check_hostname, ssl_context.verify_mode))
        return sock

    def handler(self, conn, line, h, body):
        if line.startswith("CONNECT "):
            conn.tunnel = line.split()[1].lower()
            self.events.append(("tunnel", conn.tunnel, h.get("proxy-authorization"), h.get("authorization")))
            return 200, b"", {}, False
        self.requests += 1
        self.events.append(("request", line, h, conn.tunnel, body))
        if self.answer:
            r = self.answer(line, h, body, conn.tunnel)
            if r is not None:
                return r if r != "drop" else None
        m = re.search(rb"MessageID>([^<]*)<", body)
        return 200, (SOAP % (m.group(1).decode() if m else "")).encode(), None, False

    def stop(self):
        self.net.uninstall()
        u3c.ssl_wrap_socket = self.real_wrap
        authnet.uninstall()
        for k, v in self.saved.items():
            if v is None:
                os.environ.pop(k, None)
            else:
                os.environ[k] = v


def call(w):
    try:
        return w.invoke("http://x/Custom", "http://r", None), None
    except (core.Violation, core.Horizon, core.HarnessError):
        raise
    except Exception as e:
        return None, e


def make(**kw):
    from pypsrp.wsman import WSMan
    kw.setdefault("auth", "basic")
    kw.setdefault("username", "us\u00e9r")
    kw.setdefault("password", "p:w")
    if kw.get("ssl") is False:
        kw.setdefault("encryption", "never")
    server = kw.pop("server", "srv.dom")
    return WSMan(server, **kw)


def steps(events):
    """the events without per-message content"""
    out = []
    for e in events:
        if e[0] == "host-checked":
            if e[3] == ssllib.CERT_REQUIRED:
                need(e[2] or e[1].checked, "the certificate's name is not compared with the host", "host name not checked")
        elif e[0] == "request":
            out.append(("request", e[1], e[2].get("host", "").lower(), e[3]))
        elif e[0] == "tunnel":
            need(e[3] is None, "the endpoint's credentials are given to the proxy", "credentials to proxy")
            out.append(e[:3])
        elif e[0] == "tls":
            # the validation setting is about the endpoint's certificate
            out.append(e[:3] if e[1] != "sp" else e[:2])
        else:
            out.append(e)
    return out


def bracket(host):
    return "[%s]" % host if ":" in host else host


def hostport(host, port, ssl):
    """Host header; the default port of the scheme may be left out"""
    return {"%s:%d" % (bracket(host), port)} | ({bracket(host)} if port == (443 if ssl else 80) else set())


def proxy_auth(url):
    m = re.match(r"https?://([^@/]*)@", url)
    return "Basic " + base64.b64encode(unquote(m.group(1)).encode()).decode() if m else None


def expect(proxy, host, port, ssl, path, verify="required", n=2):
    """what a session with this proxy does for n requests"""
    name = bracket(host)
    out = []
    if proxy:
        m = re.match(r"(https?)://(?:[^@/]*@)?([^:/]+):(\d+)", proxy)
        scheme, ph, pp = m.group(1), m.group(2), int(m.group(3))
        out.append(("connect", ph, pp))
        if scheme == "https":
            out.append(("tls", ph))
        if ssl:
            out.append(("tunnel", "%s:%d" % (name, port), proxy_auth(proxy)))
    else:
        out.append(("connect", host, port))
    if ssl:
        out.append(("tls", host, verify))
    for i in range(n):
        if proxy and not ssl:
            out.append(("request", "POST http://%s:%d/%s HTTP/1.1" % (name, port, path), None))
        else:
            out.append(("request", "POST /%s HTTP/1.1" % path, "%s:%d" % (name, port) if proxy else None))
    return out


def compare(events, want, host, port, ssl, label):
    got = steps(events)
    hosts = hostport(host, port, ssl)
    plain = []
    for g in got:
        if g[0] == "request":
            need(g[2] in hosts, "Host header %r for %s:%d" % (g[2], host, port), "host header")
            plain.append(("request", g[1], g[3]))
        else:
            plain.append(g)
    same(plain, want, "network use of %s" % label, "network use")


def endpoint(server, ssl, port, path):
    w = Wire()
    try:
        kw = dict(ssl=ssl, path=path) if path is not None else dict(ssl=ssl)
        if port is not None:
            kw["port"] = port
        c = make(server=server, **kw)
        for i in range(2):
            got, err = call(c)
            need(err is None, "request to %r failed: %r" % (server, err), "endpoint refused")
        real = 5986 if ssl and port is None else 5985 if port is None else port
        real_path = "wsman" if path is None else path
        host = server.lower().strip("[]")
        try:
            host = str(ipaddress.ip_address(host))
        except ValueError:
            if not host.isascii():
                host = host.encode("idna").decode()
        compare(w.events, expect(None, host, real, ssl, real_path), host, real, ssl, "%r" % ((server, ssl, port, path),))
        for e in w.events:
            if e[0] == "request":
                to = re.search(rb"<wsa:To[^>]*>([^<]*)<", e[4]).group(1).decode()
                m = re.match(r"(https?)://(.*):(\d+)/(.*)$", to)
                need(m is not None, "To header %r" % to, "To header")
                to_host = m.group(2).strip("[]").lower()
                if to_host.isascii() is False:
                    to_host = to_host.encode("idna").decode()
                try:
                    to_host = str(ipaddress.ip_address(to_host))
                except ValueError:
                    pass
                same((m.group(1), to_host, int(m.group(3)), m.group(4)), ("https" if ssl else "http", host, real, real_path.replace("&", "&amp;")), "To header", "To header")
        return (server, ssl, port, path), True
    finally:
        w.stop()


def matches(pattern, host, port):
    for p in pattern.replace(" ", "").split(","):
        if not p:
            continue
        if p == "*":
            return True
        p = p.lstrip(".")
        if re.match(r"^[\d.]+/\d+$", p):
            if re.match(r"^[\d.]+$", host) and ipaddress.ip_address(host) in ipaddress.ip_network(p):
                return True
            continue
        if host == p or "%s:%d" % (host, port) == p or host.endswith("." + p) or ("%s:%d" % (host, port)).endswith("." + p):
            return True
    return False


def chosen(explicit, no_proxy, vars, host, port, ssl):
    if explicit is not None:
        return explicit
    if no_proxy:
        return None
    low = {k.lower(): v for k, v in vars.items()}
    if matches(low.get("no_proxy", ""), host, port):
        return None
    return low.get("https_proxy" if ssl else "http_proxy") or low.get("all_proxy")


def proxying(host, ssl, explicit, no_proxy, vars, later):
    w = Wire(vars)
    try:
        port = 5986 if ssl else 5985
        kw = dict(server=host, ssl=ssl)
        if explicit is not None:
            kw["proxy"] = explicit
        if no_proxy is not None:
            kw["no_proxy"] = no_proxy
        c = make(**kw)
        for i in range(2):
            got, err = call(c)
            need(err is None, "request failed: %r" % err, "request through the proxy settings failed")
            if i == 0 and later:
                # what the environment becomes afterwards does not matter for explicit choices
                os.environ.update(later)
        want = chosen(explicit, no_proxy, vars, host, port, ssl)
        compare(w.events, expect(want, host, port, ssl, "wsman"), host, port, ssl, "explicit=%r no_proxy=%r env=%r" % (explicit, no_proxy, vars))
        reqs = [e for e in w.events if e[0] == "request"]
        for e in reqs:
            same(e[2].get("proxy-authorization"), proxy_auth(want) if want and not ssl else None, "Proxy-Authorization", "proxy credentials")
        if explicit is not None or no_proxy:
            # a new connection after the environment changed
            c.close()
            w.net.drop()
            del w.events[:]
            os.environ.update({"http_proxy": "http://late:1", "https_proxy": "http://late:1", "NO_PROXY": host})
            got, err = call(c)
            need(err is None, "request failed: %r" % err, "request through the proxy settings failed")
            compare(w.events, expect(want, host, port, ssl, "wsman", n=1), host, port, ssl, "explicit=%r no_proxy=%r after close" % (explicit, no_proxy))
        return (host, ssl, explicit, no_proxy, sorted(vars.items())), True
    finally:
        w.stop()


def redirected(ssl, target_ssl, status, no_proxy):
    """disabling the proxy also holds for the place the server redirects to"""
    w = Wire({"http_proxy": "http://envp:1", "https_proxy": "http://envp:1"})
    try:
        url = "%s://other.dom:%d/wsman" % ("https" if target_ssl else "http", 5986 if target_ssl else 5985)

        def answer(line, h, body, tunnel):
            if h["host"].startswith("srv"):
                return status, b"", {"Location": url}, False
        w.answer = answer
        c = make(ssl=ssl, no_proxy=True)
        got, err = call(c)
        for e in w.events:
            if e[0] == "connect":
                need(e[1] != "envp", "the disabled proxy is used after a redirect", "disabled proxy used")
            if e[0] == "request" and ssl:
                need(e[2]["host"].startswith("srv") or target_ssl, "a message protected by TLS is sent again in clear", "redirect to clear text")
            if e[0] == "request" and not e[2]["host"].startswith("srv"):
                need("authorization" not in e[2], "credentials given to another host", "credentials redirected")
        return (ssl, target_ssl, status, err is None), True
    finally:
        w.stop()


def validation(setting, rcb, ccb, proxy, late):
    f = files()
    vars = {}
    if rcb:
        vars["REQUESTS_CA_BUNDLE"] = f[rcb]
    if ccb:
        vars["CURL_CA_BUNDLE"] = f[ccb]
    if proxy == "env":
        vars["https_proxy"] = "http://envp:1"
    w = Wire(vars)
    try:
        kw = {}
        if setting is not None:
            kw["cert_validation"] = f[setting] if isinstance(setting, str) else setting
        if proxy and proxy != "env":
            kw["proxy"] = proxy
        c = make(ssl=True, **kw)
        if setting in (None, True):
            import certifi
            want = f[rcb] if rcb else f[ccb] if ccb else certifi.where()
        elif setting is False:
            want = None
        else:
            want = f[setting]
        verify = "none" if setting is False else "required"
        for i in range(3):
            got, err = call(c)
            if want and "missing" in want:
                need(err is not None and w.requests == 0, "a missing bundle is not noticed (%d requests, %r)" % (w.requests, err), "missing bundle accepted")
                continue
            need(err is None, "request failed: %r" % err, "validation setting")
            if late and i == 0 and setting not in (None, True):
                os.environ["REQUESTS_CA_BUNDLE"] = f["both"]
            if i == 1:
                c.close()
                w.net.drop()
        n = 0
        for e in w.events:
            if e[0] == "tls" and e[1] == "srv.dom":
                n += 1
                same((e[2], e[3] or e[4]), (verify, want), "validation with cert_validation=%r REQUESTS_CA_BUNDLE=%r CURL_CA_BUNDLE=%r proxy=%r" % (setting, rcb, ccb, proxy), "certificate validation")
        steps(w.events)
        same(n, 0 if want and "missing" in want else 2, "handshakes", "handshakes")
        return (setting, rcb, ccb, proxy), True
    finally:
        w.stop()


def client_cert(pem, key, password, proxy, ssl, netrc):
    f = files()
    vars = {"NETRC": f["netrc"]} if netrc else {}
    w = Wire(vars)
    try:
        from pypsrp.wsman import WSMan
        kw = dict(auth="certificate", ssl=ssl)
        if pem:
            kw["certificate_pem"] = f[pem]
        if key:
            kw["certificate_key_pem"] = f[key]
        if password is not None:
            kw["certificate_key_password"] = password
        if proxy:
            kw["proxy"] = proxy
        refused = not pem or not key or not ssl or f[pem] == f["missing"] or f[key] == f["missing"]
        if not ssl:
            # whatever the encryption setting, a client certificate cannot be used without TLS
            errs = []
            for enc in ("auto", "always", "never"):
                try:
                    c = WSMan("srv.dom", encryption=enc, **kw)
                    errs.append(call(c)[1])
                except ValueError as e:
                    errs.append(e)
            need(all(isinstance(e, ValueError) for e in errs), "certificate authentication without TLS: %r" % errs, "unusable combination accepted")
            need(not w.events, "something was sent", "unusable combination used")
            return (pem, key, "no tls"), True
        c = WSMan("srv.dom", **kw)
        locked = key == "locked" and password is None
        for i in range(2):
            got, err = call(c)
            if refused or locked:
                need(err is not None and w.requests == 0, "unusable certificate settings were used (%r)" % err, "unusable combination accepted")
                if not pem or not key:
                    need(isinstance(err, ValueError) and not w.events, "missing file: %r, %r" % (err, w.events), "unusable combination accepted")
            else:
                need(err is None, "request failed: %r" % err, "client certificate")
        n = 0
        for e in w.events:
            if e[0] == "tls":
                n += 1
                same(e[2], "required", "validation")
                same(e[6:], (f[pem], f[key], password), "client certificate offered", "client certificate")
            if e[0] == "request":
                same(e[2].get("authorization"), "http://schemas.dmtf.org/wbem/wsman/1/wsman/secprofile/https/mutual", "Authorization", "mutual header")
        if not (refused or locked):
            same(n, 1, "handshakes")
            compare(w.events, expect(proxy, "srv.dom", 5986, True, "wsman"), "srv.dom", 5986, True, "certificate")
        return (pem, key, password, proxy, netrc), True
    finally:
        w.stop()


AUTHS = ["basic", "certificate", "credssp", "kerberos", "negotiate", "ntlm"]
SEALING = ("credssp", "kerberos", "negotiate", "ntlm")


def credentials(auth, ssl, user, password, netrc, enc):
    f = files()
    w = Wire({"NETRC": f["netrc"]} if netrc else {})
    try:
        from pypsrp.wsman import WSMan
        offer = {"credssp": "CredSSP", "ntlm": "NTLM", "kerberos": "Kerberos", "negotiate": "Negotiate"}.get(auth)

        def answer(line, h, body, tunnel):
            if offer:
                return 401, b"", {"WWW-Authenticate": offer} if "authorization" not in h else {}, False
        w.answer = answer
        c = WSMan("srv.dom", ssl=ssl, auth=auth, username=user, password=password, encryption=enc)
        got, err = call(c)
        reqs = [e for e in w.events if e[0] == "request"]
        if auth == "basic" or auth == "credssp":
            if user is None or password is None:
                need(isinstance(err, ValueError) and not w.events, "missing credentials: %r, %d events" % (err, len(w.events)), "missing credentials accepted")
                return (auth, user, password), True
        if auth == "basic":
            need(err is None, "request failed: %r" % err, "basic")
            got = reqs[0][2].get("authorization", "")
            need(got.startswith("Basic "), "Authorization %r" % got, "basic credentials")
            raw = base64.b64decode(got[6:])
            need(raw in (("%s:%s" % (user, password)).encode("utf-8"), ("%s:%s" % (user, password)).encode("latin-1", "replace")), "credentials on the wire %r" % raw, "basic credentials")
        else:
            need(len(w.contexts) == 1, "%d security contexts" % len(w.contexts), "contexts")
            a = dict(zip(["username", "password", "hostname", "service"], w.contexts[0].args))
            a.update(w.contexts[0].kwargs)
            u = a["username"]
            if not isinstance(u, (str, type(None))):
                a["username"], a["password"] = u.username, u.password
            same((a["username"], a["password"], a["hostname"]), (user, password, "srv.dom"), "credentials given to the security provider", "provider credentials")
            for e in reqs[:1]:
                need("authorization" not in e[2], "the first request carries %r" % e[2].get("authorization"), "netrc credentials used")
        if not ssl and enc != "never":
            for e in reqs:
                need(not re.search(rb"Envelope", e[4]), "a message is sent in clear although sealing is required", "plain text message")
        return (auth, ssl, user is None, password is None), True
    finally:
        w.stop()


def combination(auth, ssl, enc):
    f = files()
    w = Wire()
    try:
        from pypsrp.wsman import WSMan
        sealed = enc == "always" or (enc == "auto" and not ssl)
        bad = auth not in AUTHS or enc not in ("auto", "always", "never") or (sealed and auth not in SEALING) or (auth == "certificate" and not ssl)
        err = None
        try:
            c = WSMan("srv.dom", ssl=ssl, auth=auth, username="u", password="p", encryption=enc, certificate_pem=f["cert"], certificate_key_pem=f["key"])
        except Exception as e:
            err, c = e, None
        if c:
            offer = {"credssp": "CredSSP", "ntlm": "NTLM", "kerberos": "Kerberos", "negotiate": "Negotiate"}.get(auth)
            w.answer = lambda line, h, body, tunnel: (401, b"", {"WWW-Authenticate": offer}, False) if offer and "authorization" not in h else None
            got, err = call(c)
        if bad:
            need(isinstance(err, ValueError) and not w.events, "auth=%r ssl=%r encryption=%r: %r" % (auth, ssl, enc, err), "unusable combination accepted")
        else:
            need(not isinstance(err, ValueError) and w.events, "auth=%r ssl=%r encryption=%r is refused: %r" % (auth, ssl, enc, err), "usable combination refused")
            tls = [e for e in w.events if e[0] == "tls"]
            same(bool(tls), ssl, "TLS used", "TLS")
            if sealed:
                need(not any(b"Envelope" in e[4] for e in w.events if e[0] == "request"), "a message is sent in clear although sealing is required", "plain text message")
        return (auth, ssl, enc, bad), True
    finally:
        w.stop()


def retrying(refused, retries, backoff, ssl, proxy, key=None):
    f = files()
    w = Wire()
    try:
        kw = {}
        if retries is not None:
            kw["reconnection_retries"] = retries
        if backoff is not None:
            kw["reconnection_backoff"] = backoff
        if proxy:
            kw["proxy"] = proxy
        if key:
            kw.update(auth="certificate", certificate_pem=f["cert"], certificate_key_pem=f[key])
        if key == "locked":
            kw["certificate_key_password"] = f["password"]
        c = make(ssl=ssl, **kw)
        w.refusals = refused
        got, err = call(c)
        r = retries or 0
        n = len([e for e in w.events if e[0] == "connect"])
        same(n, min(refused, r) + 1, "connection attempts with %d refusals and %d retries" % (refused, r), "retry budget")
        same(err is None, refused <= r, "outcome with %d refusals and %d retries" % (refused, r), "retry outcome")
        same(w.requests, 1 if refused <= r else 0, "requests")
        total = sum(W.sleeps)
        b = 2.0 if backoff is None else backoff
        if min(refused, r) >= 2 or (proxy and min(refused, r) >= 2):
            k = min(refused, r)
            # the pauses double, in units of the factor asked for
            lo, hi = sum(b * 2 ** i for i in range(1, k)), sum(b * 2 ** i for i in range(0, k + 1))
            need(lo <= total <= hi, "%s s of pauses for %d retries with backoff %s" % (total, k, b), "backoff")
        # the budget is per request, not used up
        w.refusals = 0
        c.close()
        w.net.drop()
        del w.events[:]
        w.requests = 0
        w.refusals = r
        got, err = call(c)
        need(err is None, "the second request failed within its own budget: %r" % err, "retry budget shared")
        return (refused, retries, backoff, ssl, proxy, key), True
    finally:
        w.stop()


def replies(status, retries, ssl):
    """what happened after the request was sent is reported and the budget bounds the repetitions"""
    w = Wire()
    try:
        w.answer = lambda line, h, body, tunnel: "drop" if status == "drop" else (status, b"", {"Content-Type": "text/plain"}, False)
        c = make(ssl=ssl, reconnection_retries=retries)
        got, err = call(c)
        need(err is not None, "HTTP %s reported as success" % status, "failure hidden")
        need(w.requests <= retries + 1, "%d requests with %d retries" % (w.requests, retries), "retry budget")
        if status == "drop":
            same(w.requests, 1, "a request that may have been executed was repeated", "request repeated")
        return (status, retries, ssl, w.requests), True
    finally:
        w.stop()


def timeouts(ct, rt, ssl, proxy):
    w = Wire()
    try:
        kw = {}
        if ct is not None:
            kw["connection_timeout"] = ct
        if rt is not None:
            kw["read_timeout"] = rt
        if proxy:
            kw["proxy"] = proxy
        c = make(ssl=ssl, **kw)
        got, err = call(c)
        need(err is None, "request failed: %r" % err, "timeouts")
        same(set(w.conn_timeouts), {30 if ct is None else ct}, "time limit for connecting", "connection timeout")
        same(w.read_timeouts[-1:], [30 if rt is None else rt], "time limit for reading", "read timeout")
        return (ct, rt, ssl, proxy), True
    finally:
        w.stop()


def configs():
    f = files()
    return {
        "plain": dict(ssl=False),
        "tls": dict(ssl=True),
        "noverify": dict(ssl=True, cert_validation=False),
        "bundle": dict(ssl=True, cert_validation=f["ca2"]),
        "proxy": dict(ssl=True, proxy="http://pa:1"),
        "proxy2": dict(ssl=True, proxy="http://us:pw@pb:2", cert_validation=False),
        "noproxy": dict(ssl=True, no_proxy=True),
        "other-user": dict(ssl=True, username="other", password="secret"),
        "cert": dict(ssl=True, auth="certificate", certificate_pem=f["cert"], certificate_key_pem=f["key"]),
        "locked": dict(ssl=True, auth="certificate", certificate_pem=f["cert"], certificate_key_pem=f["locked"], certificate_key_password=f["password"], proxy="http://pa:1"),
        "retry": dict(ssl=False, reconnection_retries=2, path="other"),
        "clear-proxy": dict(ssl=False, proxy="http://pa:1"),
    }


def view(events):
    out = []
    for e in events:
        if e[0] == "request":
            out.append(("request", e[1], {k: v for k, v in e[2].items() if k != "content-length"}, e[3]))
        elif e[0] != "host-checked":
            out.append(e)
    return out


def isolation(a, b, same_host, order):
    """two connections with different settings, interleaved: each as when alone"""
    def run(which):
        w = Wire({"https_proxy": "http://envp:1", "REQUESTS_CA_BUNDLE": files()["both"]})
        try:
            cs = {}
            got = {"a": [], "b": []}
            for x in which:
                k, what = x[0], x[1:]
                n = len(w.events)
                if what == "new":
                    kw = dict(configs()[a if k == "a" else b])
                    cs[k] = make(server="srv.dom" if same_host or k == "a" else "srv2.dom", **kw)
                elif what == "close":
                    cs[k].close()
                else:
                    r, err = call(cs[k])
                    need(err is None, "request failed: %r" % err, "isolation")
                got[k] += view(w.events[n:])
            return got
        finally:
            w.stop()
    alone = {}
    for k, n in (("a", a), ("b", b)):
        key = (n, same_host or k == "a", os.getpid())
        if key not in _alone:
            _alone[key] = run([k + s for s in ("new", "send", "send", "close", "send")])[k]
        alone[k] = _alone[key]
    orders = {
        "alternate": ["anew", "bnew", "asend", "bsend", "asend", "bsend", "aclose", "bclose", "asend", "bsend"],
        "nested": ["anew", "asend", "bnew", "bsend", "bsend", "bclose", "bsend", "asend", "aclose", "asend"],
        "late": ["anew", "bnew", "bsend", "asend", "asend", "aclose", "bsend", "asend", "bclose", "bsend"],
    }
    got = run(orders[order])
    for k, n in (("a", a), ("b", b)):
        same(got[k], alone[k], "network use of %s beside %s" % (n, b if k == "a" else a), "settings leak between connections")
    return (a, b, same_host, order), True


class Tls:
    """an HTTPS server on the loopback, optionally also acting as the proxy"""

    def __init__(self, cert, ask_client=False, proxy=False):
        f = files()
        self.ctx = ssllib.SSLContext(ssllib.PROTOCOL_TLS_SERVER)
        self.ctx.load_cert_chain(f[cert])
        if ask_client:
            self.ctx.verify_mode = ssllib.CERT_REQUIRED
            self.ctx.load_verify_locations(f["ca1"])
        self.ls = socket.socket()
        self.ls.bind(("127.0.0.1", 0))
        self.ls.listen(8)
        self.ls.settimeout(20)
        self.port = self.ls.getsockname()[1]
        self.requests, self.tunnels, self.peers, self.conns = [], [], [], []
        self.proxy = proxy
        self.t = threading.Thread(target=self.serve, daemon=True)
        self.t.start()

    def serve(self):
        while True:
            try:
                s, _ = self.ls.accept()
            except OSError:
                return
            self.conns.append(s)
            try:
                self.one(s)
            except (OSError, ValueError):
                try:
                    s.close()
                except OSError:
                    pass

    def head(self, f):
        line = f.readline()
        h = {}
        while line:
            x = f.readline().strip()
            if not x:
                break
            a, _, b = x.decode("latin-1").partition(":")
            h[a.lower()] = b.strip()
        return line, h

    def one(self, s):
        s.settimeout(20)
        if self.proxy:
            data = b""
            while b"\r\n\r\n" not in data:
                x = s.recv(1)
                if not x:
                    return
                data += x
            self.tunnels.append(data.split()[1].decode())
            s.sendall(b"HTTP/1.1 200 OK\r\n\r\n")
        s = self.ctx.wrap_socket(s, server_side=True)
        self.conns.append(s)
        c = s.getpeercert()
        f = s.makefile("rwb")
        while True:
            line, h = self.head(f)
            if not line:
                return
            body = f.read(int(h.get("content-length", 0)))
            self.peers.append(dict(x[0] for x in c["subject"])["commonName"] if c else None)
            self.requests.append((line, h))
            m = re.search(rb"MessageID>([^<]*)<", body).group(1).decode()
            out = (SOAP % m).encode()
            f.write(b"HTTP/1.1 200 OK\r\nContent-Type: application/soap+xml;charset=UTF-8\r\nContent-Length: %d\r\n\r\n" % len(out) + out)
            f.flush()

    def stop(self):
        for c in [self.ls] + self.conns:
            try:
                c.close()
            except OSError:
                pass


REAL = [
    # server certificate, client settings, environment, works
    ("srv", dict(cert_validation="ca1"), {}, True),
    ("srv", dict(cert_validation="both"), {}, True),
    ("srv", dict(cert_validation="ca2"), {}, False),
    ("srv", dict(), {}, False),
    ("srv", dict(), {"REQUESTS_CA_BUNDLE": "ca1"}, True),
    ("srv", dict(), {"CURL_CA_BUNDLE": "ca1"}, True),
    ("srv", dict(), {"REQUESTS_CA_BUNDLE": "ca2", "CURL_CA_BUNDLE": "ca1"}, False),
    ("srv", dict(cert_validation=True), {"REQUESTS_CA_BUNDLE": "ca1"}, True),
    ("srv", dict(cert_validation="ca2"), {"REQUESTS_CA_BUNDLE": "ca1"}, False),
    ("srv", dict(cert_validation=False), {"REQUESTS_CA_BUNDLE": "ca2"}, True),
    ("srv-other-name", dict(cert_validation="ca1"), {}, False),
    ("srv-other-name", dict(cert_validation="both"), {"REQUESTS_CA_BUNDLE": "ca1"}, False),
    ("srv-other-name", dict(cert_validation=False), {}, True),
]
REALCERT = [
    ("key", None, True), ("locked", "password", True), ("locked", "wrong", False), (None, None, False), ("key", "password", True),
]


def real(index, proxied):
    cert, kw, vars, works = REAL[index]
    f = files()
    w = Wire({k: f[v] for k, v in vars.items()})
    w.stop()
    os.environ.update({k: f[v] for k, v in vars.items()})
    W.reset()
    W.net = None
    srv = Tls(cert, proxy=proxied)
    c = None
    try:
        kw = dict(kw)
        if isinstance(kw.get("cert_validation"), str):
            kw["cert_validation"] = f[kw["cert_validation"]]
        if proxied:
            kw["proxy"] = "http://127.0.0.1:%d" % srv.port
        c = make(server="localhost" if proxied else "127.0.0.1", port=5986 if proxied else srv.port, **kw)
        got, err = call(c)
        same(err is None, works, "outcome with certificate %s, settings %r, environment %r, proxy %s (%r)" % (cert, REAL[index][1], vars, proxied, err), "certificate validation (real TLS)")
        same(len(srv.requests), 1 if works else 0, "requests that reached the server", "request sent to an unverified server")
        if proxied:
            same(srv.tunnels[0], "localhost:5986", "tunnel")
        return (index, proxied, works), True
    finally:
        if c is not None:
            c.close()
        srv.stop()
        for k in vars:
            os.environ.pop(k, None)


def real_client(index, proxied):
    key, pw, works = REALCERT[index]
    f = files()
    W.reset()
    W.net = None
    srv = Tls("srv", ask_client=True, proxy=proxied)
    c = None
    try:
        kw = dict(cert_validation=f["ca1"])
        if key:
            kw.update(auth="certificate", certificate_pem=f["cert"], certificate_key_pem=f[key])
        if pw:
            kw["certificate_key_password"] = f["password"] if pw == "password" else pw
        if proxied:
            kw["proxy"] = "http://127.0.0.1:%d" % srv.port
        c = make(server="localhost" if proxied else "127.0.0.1", port=5986 if proxied else srv.port, **kw)
        got, err = call(c)
        same(err is None, works, "outcome with client key %s, password %s, proxy %s (%r)" % (key, pw, proxied, err), "client certificate (real TLS)")
        same(srv.peers, ["user"] if works else [], "identity seen by the server", "client certificate (real TLS)")
        return (index, proxied, works), True
    finally:
        if c is not None:
            c.close()
        srv.stop()


SERVERS = ["srv", "SRV.Example.com", "10.0.0.1", "::1", "2001:DB8:0:0:0:0:0:1", "2001:db8::ff00:42:8329", "[::1]", "::ffff:10.0.0.1", "s\u00e9rver.test", "a-b.c_d"]
PATHS = [None, "wsman", "powershell", "a/b", "powershell?x=1&y=2", ""]
PORTS = [None, 1, 80, 443, 5985, 5986, 65535]
EXPL = [None, "http://pa:8080", "http://us:p%20w@pa:8080", "https://sp:8443"]


def proxy_envs(big):
    """every combination of the variables"""
    out = []
    for h, s, a in itertools.product(*[(None, "http://%s:1" % n) for n in ("eh", "es", "ea")]):
        for n in (None, "srv.dom", "dom", ".dom", "om", "other,srv.dom", "*", "srv.dom:5986", "srv", ""):
            for up in (False, True):
                v = {}
                for k, x in (("http_proxy", h), ("https_proxy", s), ("all_proxy", a), ("no_proxy", n)):
                    if x is not None:
                        v[k.upper() if up else k] = x
                out.append(v)
    return out


def cases(tier):
    out = [["iso", a] for a in sorted(["plain", "tls", "noverify", "bundle", "proxy", "proxy2", "noproxy", "other-user", "cert", "locked", "retry", "clear-proxy"])]
    out += [["proxy", host, ssl, i] for host in ("srv.dom", "10.1.2.3") for ssl in (True, False) for i in range(len(EXPL))]
    out += [["endpoint", i] for i in range(len(SERVERS))]
    return out + [["validation"], ["client"], ["credentials"], ["combination"], ["retry"], ["replies"], ["timeouts"], ["redirect"], ["real", 0], ["real", 1], ["realclient"]]


def run_case(case, rep):
    kind = case[0]
    big = os.environ.get("VERIF_TIER") == "thorough"

    def one(fn, *args):
        rep.execute(lambda: fn(*args), case=case, choices=lambda: repr(args))
    try:
        if kind == "endpoint":
            for ssl, port, path in itertools.product((True, False), PORTS, PATHS):
                one(endpoint, SERVERS[case[1]], ssl, port, path)
        elif kind == "proxy":
            host, ssl, i = case[1:]
            envs = proxy_envs(big)
            if host == "10.1.2.3":
                base = {"http_proxy": "http://eh:1", "https_proxy": "http://es:1"}
                envs = [dict(base, no_proxy=n) for n in ("10.1.2.3", "10.1.2.0/24", "10.1.3.0/24", "10.1.2.4", "10.0.0.0/8", "1.2.3")]
            for v in envs:
                for np in (None, True) if not big else (None, False, True):
                    if not big and i > 1 and len(v) > 2:
                        continue
                    later = {"http_proxy": "http://late:1", "https_proxy": "http://late:1"} if EXPL[i] or np else None
                    one(proxying, host, ssl, EXPL[i], np, v, later)
        elif kind == "redirect":
            for s, t, st in itertools.product((True, False), (True, False), (307, 308)):
                one(redirected, s, t, st, True)
        elif kind == "validation":
            for s, r, c, p, late in itertools.product((None, True, False, "ca1", "cadir", "missing"), (None, "ca2", "missing"), (None, "both"), (None, "http://pa:1", "env"), (False, True)):
                one(validation, s, r, c, p, late)
        elif kind == "client":
            f = files()
            for pem, key, pw, proxy, ssl, netrc in itertools.product(("cert", None, "missing"), ("key", "locked", None, "missing"), (None, f["password"], ""), (None, "http://pa:1"), (True, False), (False, True)):
                one(client_cert, pem, key, pw, proxy, ssl, netrc)
        elif kind == "credentials":
            for a in AUTHS:
                if a == "certificate":
                    continue
                for ssl, u, p, n in itertools.product((True, False), (None, "user", "us\u00e9r@dom", "D\\u"), (None, "pw", "p:w\u00e9", ""), (False, True)):
                    for enc in ("auto", "never") if a != "basic" else (["never"] if not ssl else ["auto"]):
                        one(credentials, a, ssl, u, p, n, enc)
        elif kind == "combination":
            for a, ssl, enc in itertools.product(AUTHS + ["digest", "Basic", ""], (True, False), ("auto", "always", "never", "maybe", "Always", "")):
                one(combination, a, ssl, enc)
        elif kind == "retry":
            for k, r, b, ssl, p in itertools.product(range(6 if not big else 8), (None, 0, 1, 2, 4) if not big else (None, 0, 1, 2, 3, 4, 5), (None, 0.5, 1, 3), (True, False), (None, "http://pa:1")):
                for key in (None, "key", "locked") if ssl else (None,):
                    one(retrying, k, r, b, ssl, p, key)
        elif kind == "replies":
            for s, r, ssl in itertools.product((400, 403, 404, 425, 429, 500, 502, 503, 504, "drop"), (0, 1, 3), (True, False)):
                one(replies, s, r, ssl)
        elif kind == "timeouts":
            for c, r, ssl, p in itertools.product((None, 1, 7), (None, 2, 99), (True, False), (None, "http://pa:1")):
                one(timeouts, c, r, ssl, p)
        elif kind == "iso":
            a = case[1]
            for b in configs():
                for sh, order in itertools.product((True, False), ("alternate", "nested", "late")):
                    if a < b or big:
                        one(isolation, a, b, sh, order)
        elif kind == "real":
            for i in range(len(REAL)):
                one(real, i, bool(case[1]))
        elif kind == "realclient":
            for i, p in itertools.product(range(len(REALCERT)), (False, True)):
                one(real_client, i, p)
    finally:
        if _files.get("pid") == os.getpid():
            shutil.rmtree(_files["dir"], ignore_errors=True)
            _files.clear()
            _alone.clear()
