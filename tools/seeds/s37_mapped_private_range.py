PROPERTY = 'R09'
NEEDS = 'an IPv6 address that maps an IPv4 address from 172.17.0.0 to 172.31.255.255'
BREAKS = 'the private range 172.16/12 ends at 172.16.255.255 for IPv4 addresses mapped into IPv6, so intranet addresses are classified as public'
EDITS = [('platform/sfw.cpp', '''			uint32_t ip_addr = ntohl(*(addrP + 3));
			if ((ip_addr >= 0x0A000000 && ip_addr <= 0x0AFFFFFF) ||
					(ip_addr >= 0xAC100000 && ip_addr <= 0xAC1FFFFF) ||''', '''			uint32_t ip_addr = ntohl(*(addrP + 3));
			if ((ip_addr >= 0x0A000000 && ip_addr <= 0x0AFFFFFF) ||
					(ip_addr >= 0xAC100000 && ip_addr <= 0xAC10FFFF) ||''')]
DEMO = r'''int main() {
	SFWCore::setup();
	for (int k = 0; k < 256; k++) {
		char t[64];
		snprintf(t, sizeof t, "172.%d.3.4", k);
		InetAddress four(String(t), 80, false), six(String("::ffff:") + t, 80, true);
		EXPECT(four.is_intranet_ip() == (k >= 16 && k <= 31));
		EXPECT(six.is_intranet_ip() == four.is_intranet_ip());
	}
	return 0;
}
'''
