"""concrete signing session between the real host agent and the real device code"""
import asyncio
import logging
import sys

logging.disable(logging.CRITICAL)
from monero_glue.agent import agent_lite
from monero_glue.hwtoken import misc as tmisc, token
from monero_glue.xmr import crypto, monero
from monero_glue.xmr.sub.creds import AccountCreds
from monero_serialize import xmrtypes as xt


def creds(seed=None):
    a, b = crypto.random_scalar(), crypto.random_scalar()
    c = AccountCreds(view_key_private=a, spend_key_private=b, view_key_public=crypto.scalarmult_base(a),
                     spend_key_public=crypto.scalarmult_base(b), network_type=0)
    c.address = b""
    return c


class Iface:
    def __init__(self, ok=True):
        self.ok = ok

    async def confirm_transaction(self, *a, **k):
        return self.ok

    def __getattr__(self, n):
        async def f(*a, **k):
            return None
        return f


def make_token(c, ok=True):
    t = token.TokenLite()
    t.debug = False
    t.creds = c
    t.iface = Iface(ok)
    return t


def addr(c, M=0, m=0):
    D, C = monero.generate_sub_address_keys(c.view_key_private, c.spend_key_public, M, m)
    return crypto.encodepoint(D), crypto.encodepoint(C)


def source(c, amount, ring=3, real=1, base=7, M=0, m=0, key=None):
    r, mask = crypto.random_scalar(), crypto.random_scalar()
    D, C = monero.generate_sub_address_keys(c.view_key_private, c.spend_key_public, M, m)
    R = crypto.scalarmult_base(r) if (M, m) == (0, 0) else crypto.scalarmult(D, r)
    der = crypto.generate_key_derivation(C, r)
    P = crypto.derive_public_key(der, 0, D)
    outs = []
    for j in range(ring):
        if j == real:
            k = xt.CtKey(dest=crypto.encodepoint(P), mask=crypto.encodepoint(crypto.gen_c(mask, amount)))
        else:
            k = xt.CtKey(dest=crypto.encodepoint(crypto.scalarmult_base(crypto.random_scalar())), mask=crypto.encodepoint(crypto.scalarmult_base(crypto.random_scalar())))
        outs.append((base + 11 * j, k))
    return xt.TxSourceEntry(outputs=outs, real_output=real, real_out_tx_key=crypto.encodepoint(R), real_out_additional_tx_keys=[], real_output_in_tx_index=0,
                            amount=amount, rct=True, mask=crypto.encodeint(mask), multisig_kLRki=None)


def dest(c, amount, M=0, m=0):
    D, C = addr(c, M, m)
    return xt.TxDestinationEntry(original=b"", amount=amount, is_subaddress=(M, m) != (0, 0), is_integrated=False,
                                 addr=xt.AccountPublicAddress(m_spend_public_key=D, m_view_public_key=C))


def construction(sources, dests, change, account=0, minors=(0,), extra=b"", unlock=0):
    return xt.TxConstructionData(sources=list(sources), change_dts=change, splitted_dsts=list(dests), selected_transfers=[], extra=extra, unlock_time=unlock,
                                 use_rct=True, use_bulletproofs=True, dests=list(dests), subaddr_account=account, subaddr_indices=list(minors))


class Tap:
    """between host and device"""
    def __init__(self, tok, before=None, after=None):
        self.tok, self.before, self.after, self.n, self.log = tok, before, after, -1, []

    def __getattr__(self, k):
        return getattr(self.tok, k)

    async def tsx_sign(self, msg):
        self.n += 1
        if self.before:
            msg = self.before(self, msg) or msg
        r = await self.tok.tsx_sign(msg)
        self.log.append((type(msg).__name__, type(r).__name__))
        if self.after:
            r = self.after(self, msg, r) or r
        return r


def run(x):
    return asyncio.new_event_loop().run_until_complete(x)


def agent(tok, hf=10, client=1):
    a = agent_lite.Agent(tok, network_type=0)
    a.hf, a.client_version = hf, client
    return a


def quick_bp():
    """makes range proofs free: the prover returns a dummy proof that carries the commitments, the verifier compares"""
    from monero_glue.xmr import ring_ct
    made = {}

    async def prove(amounts, masks):
        k = [crypto.random_bytes(32) for _ in range(13)]
        V = [crypto.encodepoint(crypto.scalarmult(crypto.gen_c(m, a), crypto.sc_inv_eight())) for a, m in zip(amounts, masks)]
        made[bytes(k[0])] = V
        return xt.Bulletproof(V=V, A=k[0], S=k[1], T1=k[2], T2=k[3], taux=k[4], mu=k[5], L=k[6:8], R=k[8:10], a=k[10], b=k[11], t=k[12])

    async def verify(bp, amounts=None, masks=None):
        V = [crypto.encodepoint(crypto.scalarmult(crypto.gen_c(m, a), crypto.sc_inv_eight())) for a, m in zip(amounts, masks)]
        return made.get(bytes(bp.A)) == V
    ring_ct.prove_range_bp_batch, ring_ct.verify_bp = prove, verify
    ring_ct.ver_range = lambda **k: True


def check(c, what):
    if not c:
        print("FAILED:", what)
        sys.exit(1)
