"""What decides what: drivers and trace specifications (ENGINES), checks of the
specification itself (MODELS), and per property the engines with the observations
(op:field) that belong to it, and the models (PROPS)."""

VSS_NEED = ["dealer:ok", "dealer:err", "mutate:-", "encrypt:ok", "encrypt:err", "verifier:ok", "verifier:err", "recv:ok",
            "recv:err", "response:ok", "response:err", "justify:ok", "justify:err", "timeout:ok", "observe:ok",
            "recover:ok", "recover:err", "mint:ok"]

DKG_NEED = ["node:ok", "node:err", "mutate:-", "deals:ok", "pdeal:ok", "pdeal:err", "presp:ok", "presp:err",
            "pjust:err", "timeout:ok", "observe:ok", "key:ok", "key:err", "agree:ok"]

ENGINES = {
    "poly": dict(module="PolyTrace", need=["recsecret:ok", "recsecret:err", "recpri:ok", "recpri:err", "reccommit:ok",
                 "reccommit:err", "recpub:ok", "recpub:err", "check:ok", "addpri:ok", "addpri:err", "addpub:ok", "addpub:err",
                 "mulpri:ok", "eqpub:ok", "eqpri:ok", "commit:ok", "farcheck:ok", "farpri:ok", "farpub:ok", "recfarpri:ok", "recfarpub:ok"]),
    "vssped": dict(module="VssTrace", gen=dict(module="VssGen", cfg="VssGen_ped.cfg", workers=1, min=10000),
                   need=VSS_NEED),
    "vssrab": dict(module="VssTrace", gen=dict(module="VssGen", cfg="VssGen_rab.cfg", workers=1, min=1000),
                   need=VSS_NEED),
    "dkgped": dict(module="DkgPedTrace", gen=dict(module="DkgPedGen", cfg="DkgPedGen_fresh.cfg", workers=1, min=100000, sample=3),
                   need=DKG_NEED + ["pjust:ok"]),
    "dkgre": dict(module="DkgPedTrace", gen=dict(module="DkgPedGen", cfg="DkgPedGen_re.cfg", workers=1, min=100000, sample=2),
                  need=DKG_NEED + ["pjust:ok"]),
    # the same drivers without the generated behaviours, where those add nothing
    "renewals": dict(driver="dkgre", module="DkgPedTrace", need=["renew:ok", "renew:err"]),
    "sources": dict(driver="dkgped", module="DkgPedTrace", need=["node:ok", "node:(err|panic)"]),
    "dkgrab": dict(module="DkgRabTrace", gen=dict(module="DkgRabGen", cfg="DkgRabGen.cfg", workers=1, min=200000, sample=3),
                   need=DKG_NEED + ["reveal:ok", "reveal:err", "preveal:ok", "preveal:err", "pcomplaint:ok",
                   "pcomplaint:err", "pshare:ok", "pshare:err"]),
    "dss": dict(module="DssTrace", gen=dict(module="DssGen", cfg="DssGen.cfg", workers=1, min=500),
                need=["new:ok", "new:err", "partial:ok", "process:ok", "process:err", "signature:ok", "signature:err", "verify:ok",
                      "verify:err"]),
    "sig": dict(module="SigTrace", need=["new:ok", "unmarshal:ok", "unmarshal:err", "frompair:ok", "marshal:ok", "marshal:err",
                "sign:ok", "verify:ok", "verify:err", "ssign:ok", "sverify:ok", "sverify:err"]),
    "scalar": dict(module="FieldTrace", need=["setbytes:ok", "unmarshal:ok", "unmarshal:err", "read:ok", "read:err", "mul:ok", "wire:ok", "add:ok",
                   "sub:ok", "muladd:ok", "inv:ok", "div:ok", "neg:ok", "int64:ok", "pick:ok", "order:ok", "canonical:ok", "marshal:ok", "hex:ok"]),
    "curve": dict(module="CurveTrace", need=["dec:ok", "dec:err", "read:ok", "read:err", "enc:ok", "small:ok", "canonical:ok", "neg:ok", "add:ok", "sub:ok",
                  "mul:ok", "order:ok", "hex:ok", "embed:ok", "data:ok", "data:err", "pick:ok", "wire:ok", "null:ok", "base:ok", "set:ok"]),
    "int": dict(module="FieldTrace", need=["unmarshal:ok", "unmarshal:err", "exp:ok", "new:ok", "le:ok", "le:err", "be:ok", "be:err", "sqrt:ok",
                "sqrt:err", "jacobi:ok", "string:ok", "string:err", "div:ok", "inv:ok", "sub:ok", "order:ok", "pick:ok", "native:ok", "wire:ok"]),
    "chan": dict(module="ChannelTrace", need=["encrypt:ok", "decrypt:ok", "decrypt:err", "seal:ok", "seal:err", "open:ok", "open:err", "dhenc:ok",
                 "dhdec:ok", "dhdec:err", "hkdf:ok", "hkdf:err", "aesenc:ok", "aesenc:err", "aesdec:ok", "aesdec:err", "exchange:ok"]),
    "xof": dict(module="XofTrace", gen=dict(module="XofGen", cfg="XofGen.cfg", workers=1, min=1000, thorough="XofGen4.cfg"),
                need=["new:ok", "write:ok", "write:err", "read:ok", "xor:ok", "xor:(err|panic)", "reseed:ok", "clone:ok", "flush:ok"]),
    "keys": dict(module="KeysTrace", need=["pair:ok", "pair:err", "wire:ok", "same:ok", "show:ok", "seeded:ok", "seeded:err", "suite:ok"]),
    "rand": dict(module="RandTrace", need=["mix:ok", "mix:err", "fresh:ok", "bits:ok", "uniform:ok", "int:ok", "fill:ok", "fill:err", "failing:(err|panic)"]),
}
# the same drivers where only storage and printing are of interest: no generated behaviours
STORE_NEED = ["stored:ok", "cut:err", "garbled:(ok|err)", "show:ok"]
ENGINES.update({f"s_{k}": dict(driver=k, module=ENGINES[k]["module"], need=STORE_NEED)
                for k in ("poly", "vssped", "vssrab", "dkgped", "dkgre", "dkgrab", "dss")})
ENGINES["s_sig"] = dict(driver="sig", module="SigTrace", need=STORE_NEED[:3] + ["show:ok"])

MODELS = {
    **{f"vss_{c}": dict(module="VssModel", cfg=f"VssModel_{c}.cfg", workers=4)
       for c in ("ped", "ped_h", "ped_sync", "rab", "rab_h", "rab_sync", "rab_sync4")},
    **{f"dkgped_{c}": dict(module="DkgPedModel", cfg=f"DkgPedModel_{c}.cfg", workers=4)
       for c in ("fresh_h", "fresh_c", "fresh_v", "fresh_hv", "re_h", "re_c", "re_v", "re_l")},
    **{f"dkgrab_{c}": dict(module="DkgRabModel", cfg=f"DkgRabModel_{c}.cfg", workers=4) for c in ("h", "c", "c2", "c3")},
    **{f"shamir_{c}": dict(module="ShamirModel", cfg=f"ShamirModel_{c}.cfg", workers=4) for c in ("1", "2", "3")},
    **{f"reshare_{c}": dict(module="ReshareModel", cfg=f"ReshareModel_{c}.cfg", workers=4)
       for c in ("sum", "up", "same", "down", "renew")},
    "prim": dict(module="PrimTest", cfg="Const.cfg"),
    "ed25519": dict(module="Ed25519Test", cfg="Const.cfg"),
}

VSS_DEAL = [r"(dealer|recv|verifier|recover|mint|threshold):.*"]
VSS_BOOK = [r"(response|justify|forged|timeout|vouch|observe):.*"]

VSS_SEAL = [r"encrypt(all)?:.*", r"recv:(opened|garbage|misdirected|out)"]

DKG_MSG = [r"(deals|pdeal|presp|pjust|timeout|observe):.*", r"node:(?!determined|fresh|dry).*"]

STORED = r"(stored|cut|garbled):.*"
STORES = ("s_poly", "s_vssped", "s_vssrab", "s_dkgped", "s_dkgre", "s_dkgrab", "s_dss", "s_sig")

PROPS = {
    "C01": dict(engines={"poly": [r"(recsecret|recpri|reccommit|recpub|recfarpri|recfarpub):.*", r"newpri:.*"]}, models=["shamir_1", "shamir_2"], thorough_models=["shamir_3"]),
    "C02": dict(engines={"poly": [r"(?!rec).*:.*"]}, models=["shamir_1"]),
    "C03": dict(engines={"vssped": VSS_DEAL}),
    "C04": dict(engines={"vssped": VSS_BOOK}, models=["vss_ped_sync"], thorough_models=["vss_ped", "vss_ped_h"]),
    "C05": dict(engines={"vssrab": VSS_DEAL}),
    "C06": dict(engines={"vssrab": VSS_BOOK}, models=["vss_rab_sync"], thorough_models=["vss_rab", "vss_rab_h", "vss_rab_sync4"]),
    "C07": dict(engines={"vssped": VSS_SEAL, "vssrab": VSS_SEAL}),
    "C08": dict(engines={"dkgped": [r"(key|agree):.*"]}, models=["dkgped_fresh_h", "dkgped_fresh_c"], thorough_models=["reshare_sum"]),
    "C09": dict(engines={"dkgre": [r"(key|agree):.*"]}, models=["dkgped_re_h", "dkgped_re_c", "reshare_same"], thorough_models=["dkgped_re_l", "reshare_up", "reshare_down"]),
    "C10": dict(engines={"dkgped": DKG_MSG, "dkgre": DKG_MSG}, models=["dkgped_fresh_v", "dkgped_fresh_hv"], thorough_models=["dkgped_re_v"]),
    "C12": dict(engines={"dkgrab": [r"(node|deals|pdeal|presp|pjust|timeout):.*", r"observe:(?!finished).*"]}),
    "C13": dict(engines={"dkgrab": [r"(reveal|preveal|pcomplaint|pshare|key|agree):.*", r"observe:finished"]}, models=["dkgrab_h", "dkgrab_c", "dkgrab_c2"],
                thorough_models=["dkgrab_c3"]),
    "C11": dict(engines={"renewals": [r"renew:.*"]}, models=["reshare_renew"]),
    "C14": dict(engines={"dss": [r".*:.*"]}),
    "C15": dict(engines={"sig": [r"(ssign|sverify):.*"]}),
    "C21": dict(engines={"curve": [r".*:.*"]}),
    "C17": dict(engines={"chan": [r".*:.*"]}),
    "C18": dict(engines={"xof": [r".*:.*"]}),
    "C19": dict(engines={"rand": [r".*:.*"], "sources": [r"node:(determined|fresh|dry)"]}),
    "C24": dict(engines={"keys": [r".*:.*"]}),
    "C20": dict(engines={"scalar": [r".*:.*"]}),
    "C23": dict(engines={"int": [r".*:.*"]}),
    "C22": dict(engines={**{k: [STORED] for k in STORES}, "keys": [r"wire:.*"], "curve": [r"wire:.*"], "scalar": [r"wire:.*"], "int": [r"wire:.*"]}),
    "C25": dict(engines={**{k: [r"show:.*"] for k in STORES}, "keys": [r"show:.*"]}),
    "C16": dict(engines={"sig": [r"(new|unmarshal|frompair|equal|marshal|sign|verify):.*"]}),
}
