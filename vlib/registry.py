from . import p_hislip, p_line, p_lock, p_net, p_rpc, p_vxi

CHECKS = {}
for m in (p_lock, p_hislip, p_vxi, p_rpc, p_line, p_net):
    CHECKS.update(m.CHECKS)

#: Deviating descriptions of the technique, and remarks on the level
TECH = {}
NOTE = {}
for m in (p_lock, p_hislip, p_vxi, p_rpc, p_line, p_net):
    TECH.update(getattr(m, "TECH", {}))
    NOTE.update(getattr(m, "NOTE", {}))
