from vp import Check, Test
import tscheck
import tsmodel


def run(case, w):
    m = tscheck.run(case, w)
    return "all started" in m.labels and bool(m.results), sorted(m.labels)


CHECK = Check("C11", [Test("order", tsmodel.histories("order"), run, 500, 8000, shards=4)], ["ops_server"],
    "A case is a history of 1 to 3 data collectors and 1 to 2 share keepers talking to a real tally server over authenticated "
    "connections: answers that are good, failed, missing, late, repeated, incomplete or unasked for, broken connections and "
    "restarted clients, over one or more rounds. A model predicts every line the server sends and the contents of the result "
    "files; the tally must be the sum of the reports of all participants or absent. Non-trivial when a round got all its "
    "shares and ended.",
    ["messages are well-formed JSON of the shape real clients send"])
