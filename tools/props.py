"""What each property's check runs, and which differences break the property.

fams   (generator family of harness/src/main.rs, scenarios per core: quick, thorough)
cats   a difference between implementation and specification whose category
       matches one of these breaks the property
mc     (module of /verif/spec that is explored exhaustively, variant)
must   calls and questions that have to have happened, or the run decided nothing
"""
HOOKS = r"(hroute|hcustom|hfall)"
OWNED = r"(mailbox|hagg|fee|hpaus|ipaus|hroute|hcustom|hfall|igp|oracle|iagg|imulti|iroute|wnat|wcw)"

PROPS = {
    "C01": dict(
        mc=[("MC_C01", "")],
        fams=[("process", 90, 1500)],
        cats=[r"ok/mailbox/Process/accepts/replay", r"ok/mailbox/Process/refuses/retry", r"q/mailbox/Delivered",
              r"ev/handle/.*", r"ev/order/mailbox/Process"],
        must=["mailbox.Process.ok", "mailbox.Process.fail", "mailbox?Delivered.ok"]),
    "C02": dict(
        mc=[("MC_C02", "")],
        fams=[("process", 90, 1500), ("system", 12, 150)],
        cats=[r"ok/mailbox/Process/(accepts|refuses)/(first|retry)", r"ev/(handle|proc|procid|sub)/.*", r"ev/order/mailbox/Process",
              r"q/mailbox/(RecipientIsm|DefaultIsm|LocalDomain)", r"q/[^/]*/allbal", r"ok/mailbox/SetDefaultIsm/.*"],
        must=["mailbox.Process.ok", "mailbox.Process.fail"]),
    "C03": dict(
        mc=[("MC_C03", "")],
        fams=[("dispatch", 90, 1500), ("system", 12, 150)],
        cats=[r"ok/mailbox/Dispatch/.*", r"ev/(disp|dispid|hook|mk|mkins)/.*", r"data/mailbox/Dispatch",
              r"q/mailbox/(LatestId|Nonce|LocalDomain)"],
        must=["mailbox.Dispatch.ok", "mailbox.Dispatch.fail"]),
    "C04": dict(
        mc=[("MC_C03", "")],
        fams=[("dispatch", 90, 1500), ("compose", 25, 300)],
        cats=[r"ok/mailbox/Dispatch/.*", r"ev/hook/.*", r"ev/order/.*", r"q/[^/]*/allbal",
              r"q/mailbox/(DefaultHook|RequiredHook|Nonce|LatestId)", r"ok/mailbox/Set(Default|Required)Hook/.*"],
        must=["mailbox.Dispatch.ok", "mailbox.Dispatch.fail"]),
    "C05": dict(
        mc=[("MC_C05", "")],
        fams=[("compose", 60, 900), ("system", 12, 150)],
        cats=[r"ok/mailbox/Dispatch/.*", r"q/mailbox/MQuote", r"q/[^/]*/allbal", r"q/(fee|igp|hagg|hroute|hcustom|hfall|merkle|hpaus)/Quote"],
        must=["mailbox.Dispatch.ok", "mailbox.Dispatch.fail", "mailbox?MQuote.ok"]),
    "C06": dict(
        mc=[("MC_C06", "")],
        fams=[("merkle", 40, 500), ("system", 12, 150)],
        cats=[r"ok/merkle/.*", r"ok/mailbox/Dispatch/.*", r"ev/(mk|mkins)/.*", r"q/merkle/.*"],
        must=["merkle.PostDispatch.ok", "merkle.PostDispatch.fail", "merkle?Root.ok"]),
    "C07": dict(
        mc=[("MC_C07", "")],
        fams=[("multisig", 60, 900), ("system", 12, 150)],
        cats=[r"ok/imulti/.*", r"q/imulti/(Verify|VerifyInfo|Enrolled)"],
        must=["imulti?Verify.ok", "imulti.SetVals.ok", "imulti.SetVals.fail"]),
    "C08": dict(
        mc=[("MC_C08", "")],
        fams=[("iagg", 60, 900), ("system", 12, 150)],
        cats=[r"ok/iagg/.*", r"q/iagg/(Verify|VerifyInfo|Isms)"],
        must=["iagg?Verify.ok", "iagg.SetIsms.ok", "iagg.SetIsms.fail"]),
    "C09": dict(
        mc=[("MC_C09", "")],
        fams=[("iroute", 60, 900), ("system", 12, 150)],
        cats=[r"ok/iroute/.*", r"q/iroute/(Verify|VerifyInfo|Route)"],
        must=["iroute?Verify.ok", "iroute?Verify.err", "iroute.UnsetIsmRoute.ok"]),
    "C10": dict(
        mc=[("MC_C10", "")],
        fams=[("hroute", 80, 1200), ("compose", 25, 300)],
        cats=[r"ok/%s/.*" % HOOKS, r"ev/(hook|order)/.*", r"q/%s/.*" % HOOKS, r"q/[^/]*/allbal"],
        must=["hroute.PostDispatch.ok", "hcustom.PostDispatch.ok", "hfall.PostDispatch.ok", "hcustom?CustomHooks.ok"]),
    "C11": dict(
        mc=[("MC_C11", "")],
        fams=[("hagg", 80, 1200), ("compose", 25, 300)],
        cats=[r"ok/hagg/.*", r"ev/(hook|order)/.*", r"q/hagg/(Quote|Hooks|allbal)", r"q/[^/]*/allbal"],
        must=["hagg.PostDispatch.ok", "hagg.PostDispatch.fail", "hagg?Quote.ok"]),
    "C12": dict(
        mc=[("MC_C12", "")],
        fams=[("igp", 80, 1200), ("compose", 25, 300)],
        cats=[r"ok/igp/.*", r"ev/gas/.*", r"q/igp/(Quote|QuoteGas|Benef)", r"q/[^/]*/allbal"],
        must=["igp.PostDispatch.ok", "igp.PayForGas.ok", "igp.PayForGas.fail", "igp.Claim.ok"]),
    "C13": dict(
        mc=[("MC_C13", "")],
        fams=[("gasconf", 80, 1200), ("igp", 25, 300)],
        cats=[r"ok/(igp|oracle)/.*", r"q/igp/(DefaultGas|GasFor|ListGas|Oracle|Quote|QuoteGas)", r"q/oracle/.*"],
        must=["igp.SetGas.ok", "igp.UnsetGas.ok", "oracle.SetGasData.ok", "igp?QuoteGas.ok", "igp?ListGas.ok"]),
    "C14": dict(
        mc=[("MC_C14", "nn"), ("MC_C14", "cc"), ("MC_C14", "nc")],
        fams=[("warp", 60, 900)],
        cats=[r"ok/(wnat|wcw)/.*", r"ok/mailbox/Process/.*", r"q/cw20/(CBal|CSupply|CAllow)", r"q/[^/]*/allbal",
              r"ev/(disp|hook)/.*"],
        must=["wnat.TransferRemote.ok", "wcw.TransferRemote.ok", "mailbox.Process.ok", "cw20?CSupply.ok"]),
    "C15": dict(
        mc=[("MC_C15", "nc"), ("MC_C15", "nb"), ("MC_C15", "cc"), ("MC_C15", "cb")],
        fams=[("warp", 60, 900), ("system", 12, 150)],
        cats=[r"ok/(wnat|wcw)/.*", r"ok/mailbox/Process/.*", r"ev/(disp|hook|order)/.*",
              r"q/(wnat|wcw)/.*"],
        must=["wnat.Handle.fail", "wcw.Handle.fail", "mailbox.Process.ok", "wnat?GetIsm.ok", "wcw?GetIsm.ok"]),
    "C16": dict(
        mc=[("MC_C16", "")],
        fams=[("owner", 120, 1800)],
        cats=[r"ok/%s/.*" % OWNED, r"q/.*"],
        must=["mailbox.ClaimOwn.ok", "fee.ClaimOwn.ok", "wnat.InitOwn.fail"]),
    "C17": dict(
        mc=[("MC_C17", "")],
        fams=[("pausable", 80, 1200)],
        cats=[r"ok/(hpaus|ipaus)/.*", r"q/(hpaus|ipaus)/.*"],
        must=["hpaus.PostDispatch.ok", "hpaus.PostDispatch.fail", "ipaus?Verify.ok", "hpaus.Pause.fail"]),
    "C18": dict(
        mc=[("MC_C18", "")],
        fams=[("announce", 40, 600)],
        cats=[r"ok/va/.*", r"q/va/.*"],
        must=["va.Announce.ok", "va.Announce.fail", "va?Locs.ok"]),
    "C19": dict(
        mc=[("MC_C19", "")],
        fams=[("routes", 120, 1800)],
        cats=[r"ok/(hroute|hcustom|hfall|igp|wnat|wcw)/SetRoutes?/.*", r"q/[^/]*/(GetRoute|ListRoutes|Domains)"],
        must=["hroute?ListRoutes.ok", "hroute?ListRoutes.err", "wcw?ListRoutes.ok", "igp?ListRoutes.ok"]),
    "C20": dict(
        mc=[("MC_C20", "")],
        fams=[("fee", 80, 1200)],
        cats=[r"ok/fee/.*", r"q/fee/.*", r"q/[^/]*/allbal"],
        must=["fee.PostDispatch.ok", "fee.PostDispatch.fail", "fee.FeeClaim.ok", "fee.FeeClaim.fail"]),
    "C21": dict(
        mc=[("MC_C21", "")],
        fams=[("migrate", 120, 1800)],
        cats=[r"ok/[^/]*/migrate/.*", r"q/.*"],
        must=["mailbox.migrate.ok", "mailbox.migrate.fail", "wcw.migrate.ok", "va.migrate.ok"]),
    "C22": dict(
        mc=[("MC_C22", "")],
        fams=[("system", 60, 900)],
        cats=[r"ok/mailbox/(Dispatch|Process)/.*", r"ev/.*", r"data/mailbox/Dispatch", r"q/mailbox/.*",
              r"q/(imulti|iagg|iroute|ipaus|merkle)/.*", r"ok/(wnat|wcw)/.*", r"q/[^/]*/allbal"],
        must=["mailbox.Dispatch.ok", "mailbox.Process.ok", "mailbox.Process.fail", "wnat.TransferRemote.ok", "imulti.SetVals.ok", "mailbox?Delivered.ok"]),
    "C23": dict(
        mc=[("MC_C23", "")],
        fams=[("setup", 120, 1800)],
        cats=[r"ok/[^/]*/Inst/.*", r"ev/dmeta/.*", r"q/.*"],
        must=["mailbox.inst.ok", "wcw.inst.ok", "wnat.inst.ok", "iagg.inst.ok", ".inst.fail", "mailbox?Hrp.ok", "cw20?CMinter.ok"]),
}
