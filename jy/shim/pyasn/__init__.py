
'''
Stand-in for pyasn (not installed here): longest-prefix match of an IP address
in an IPASN table given as a string, as pyasn.pyasn(None, ipasn_string=...).
'''
import ipaddress

class pyasn(object):
    def __init__(self, ipasn_file, as_names_file=None, ipasn_string=None, mode='TSV', use_lpm=True):
        self._by_len = {4: {}, 6: {}}
        for line in (ipasn_string or '').splitlines():
            line = line.strip()
            if not line or line[0] in ';#':
                continue
            prefix, asn = line.split()
            asn = int(asn)
            net = ipaddress.ip_network(unicode(prefix), strict=False)
            d = self._by_len[net.version].setdefault(net.prefixlen, {})
            d[int(net.network_address)] = (asn, str(net))
    def lookup(self, ip):
        a = ipaddress.ip_address(unicode(ip))
        bits = a.max_prefixlen
        n = int(a)
        for plen in sorted(self._by_len[a.version], reverse=True):
            base = (n >> (bits - plen)) << (bits - plen) if plen else 0
            hit = self._by_len[a.version][plen].get(base)
            if hit is not None:
                return hit
        return (None, None)
