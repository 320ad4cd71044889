"""A small testbed with all the special cases, registered at the client (public insert)."""


def setup():
    """Targets: id -> (testbed_id, observer or None, port, has mcu2, usable)."""
    from shepherd_core.data_models import Firmware
    from shepherd_core.data_models.testbed import MCU, Cape, Observer, Target, Testbed
    from shepherd_core.testbed_client import tb_client
    # a controller whose default firmware is for another controller
    odd = MCU(id=9001, name="oddmcu", description="d", platform="p", core="c", prog_protocol="JTAG", prog_voltage=1.8, prog_datarate=123_456, fw_name_default="nrf52_demo_rf")
    tb_client.insert(odd)
    own = {"owner": "o", "group": "g"}
    for uid, name, volt, rate, prot in ((9002, "mcu-a", 1, 1_000_000, "JTAG"), (9003, "mcu-b", 5, 1, "UART")):
        mcu = MCU(id=uid, name=name, description="d", platform="p", core="c", prog_protocol=prot, prog_voltage=volt, prog_datarate=rate, fw_name_default=f"fw-{name}")
        tb_client.insert(mcu)
        tb_client.insert(Firmware(id=uid, name=f"fw-{name}", mcu={"name": name}, data=f"/fw/{name}.elf", data_type="path_elf", **own))
    spec = {  # id: (explicit testbed_id, mcu1, mcu2, active)
        41: (None, "nRF52", "MSP430FR", True),
        42: (None, "nRF52", None, True),
        65578: (None, "nRF52", "MSP430FR", True),  # same 16 bit id as 42
        43: (None, "nRF52", "MSP430FR", True),
        44: (777, "MSP430FR", "nRF52", True),
        45: (None, "nRF52", "MSP430FR", False),
        46: (None, "nRF52", "MSP430FR", True),  # on inactive observer
        47: (None, "nRF52", "MSP430FR", True),  # on inactive cape
        48: (None, "nRF52", "oddmcu", True),  # default firmware does not fit
        51: (None, "mcu-a", "mcu-b", True), 52: (5, "mcu-b", "mcu-a", True),  # controllers with own settings
        49: (None, "nRF52", "MSP430FR", True),  # exists, but not in the testbed
    }
    for tid, (tbid, m1, m2, act) in spec.items():
        tb_client.insert(Target(id=tid, name=f"tgt{tid}", version="1", description="d", testbed_id=tbid, mcu1={"name": m1}, mcu2=None if m2 is None else {"name": m2}, active=act))
    obs_spec = {  # number: (targets, active, cape active)
        1: ((41, None), True, True), 2: ((42, 43), True, True), 3: ((None, 65578), True, True), 4: ((44, None), True, True),
        5: ((45, None), True, True), 6: ((46, None), False, True), 7: ((None, 47), True, False), 8: ((None, 48), True, True),
        11: ((51, None), True, True), 12: ((None, 52), True, True),
        9: ((None, None), True, None), 10: ((None, None), True, True),
    }
    obs = []
    # incomplete ones first, so that searches have to pass them
    for n in (9, 10, 6, 7, 1, 2, 3, 4, 5, 8, 11, 12):
        (a, b), act, cact = obs_spec[n]
        cape = None
        if cact is not None:
            cape = Cape(id=8000 + n, name=f"labcape{n}", version="1", description="d", active=cact)
            tb_client.insert(cape)
        o = Observer(id=7000 + n, name=f"lab{n:02}", description="d", ip=f"10.9.0.{n}", mac=f"00:00:00:00:00:{n:02}", room="r", eth_port=f"p{n}", active=act, cape=cape,
                     target_a=None if a is None else Target(id=a), target_b=None if b is None else Target(id=b))
        tb_client.insert(o)
        obs.append(o)
    tbid = tb_client.query_ids("Testbed")[0]
    tbname = tb_client.query_item("Testbed", uid=tbid)["name"]
    tb = Testbed(id=tbid, name=tbname, description="d", observers=[o.model_dump() for o in obs], data_on_server="/srv/data", data_on_observer="/obs/data", prep_duration=240)
    tb_client.insert(tb)
    info = {}
    for tid, (tbid2, m1, m2, act) in spec.items():
        place = [(n, "A" if a == tid else "B") for n, ((a, b), _, _) in obs_spec.items() if tid in (a, b)]
        n, port = place[0] if place else (None, None)
        usable = n is not None and act and obs_spec[n][1] and obs_spec[n][2]
        info[tid] = {"tbid": tid % 65536 if tbid2 is None else tbid2, "obs": n, "port": port, "mcu1": m1, "mcu2": m2, "usable": bool(usable)}
    return info
