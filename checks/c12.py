from vp import Check, Test
import tscheck
import tsmodel


def run(case, w):
    m = tscheck.run(case, w)
    return bool(m.labels & {"round started", "delayed", "no rounds left", "before the start time", "client lost"}), sorted(m.labels)


CHECK = Check("C12", [Test("schedule", tsmodel.histories("time"), run, 500, 8000, shards=4)], ["ops_server"],
    "A case is a configuration of a real tally server and a history of ticks, client statuses (with delays and clock skew), "
    "silences up to and past the limit, restarts, old versions and edits of the configuration, valid or not. A model of the "
    "documented rules predicts every command and status the server sends and when results appear. Non-trivial when a round "
    "starts or is held back, or a client is forgotten.",
    ["statuses of clients have the fields real clients send", "configuration files are well-formed YAML"])
