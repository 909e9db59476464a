// generated from Unicode data: base vowel x {breve, circumflex, horn} x tone, NFC-composed; D with stroke and eth
static const struct { unsigned code; char base; } VIET[] = {
	{0x00c0,'A'}, {0x00c1,'A'}, {0x00c2,'A'}, {0x00c3,'A'}, {0x00c8,'E'}, {0x00c9,'E'}, {0x00ca,'E'}, {0x00cc,'I'}, {0x00cd,'I'}, {0x00d0,'D'},
	{0x00d2,'O'}, {0x00d3,'O'}, {0x00d4,'O'}, {0x00d5,'O'}, {0x00d9,'U'}, {0x00da,'U'}, {0x00dd,'Y'}, {0x00e0,'a'}, {0x00e1,'a'}, {0x00e2,'a'},
	{0x00e3,'a'}, {0x00e8,'e'}, {0x00e9,'e'}, {0x00ea,'e'}, {0x00ec,'i'}, {0x00ed,'i'}, {0x00f0,'d'}, {0x00f2,'o'}, {0x00f3,'o'}, {0x00f4,'o'},
	{0x00f5,'o'}, {0x00f9,'u'}, {0x00fa,'u'}, {0x00fd,'y'}, {0x0102,'A'}, {0x0103,'a'}, {0x0110,'D'}, {0x0111,'d'}, {0x0128,'I'}, {0x0129,'i'},
	{0x0168,'U'}, {0x0169,'u'}, {0x01a0,'O'}, {0x01a1,'o'}, {0x01af,'U'}, {0x01b0,'u'}, {0x1ea0,'A'}, {0x1ea1,'a'}, {0x1ea2,'A'}, {0x1ea3,'a'},
	{0x1ea4,'A'}, {0x1ea5,'a'}, {0x1ea6,'A'}, {0x1ea7,'a'}, {0x1ea8,'A'}, {0x1ea9,'a'}, {0x1eaa,'A'}, {0x1eab,'a'}, {0x1eac,'A'}, {0x1ead,'a'},
	{0x1eae,'A'}, {0x1eaf,'a'}, {0x1eb0,'A'}, {0x1eb1,'a'}, {0x1eb2,'A'}, {0x1eb3,'a'}, {0x1eb4,'A'}, {0x1eb5,'a'}, {0x1eb6,'A'}, {0x1eb7,'a'},
	{0x1eb8,'E'}, {0x1eb9,'e'}, {0x1eba,'E'}, {0x1ebb,'e'}, {0x1ebc,'E'}, {0x1ebd,'e'}, {0x1ebe,'E'}, {0x1ebf,'e'}, {0x1ec0,'E'}, {0x1ec1,'e'},
	{0x1ec2,'E'}, {0x1ec3,'e'}, {0x1ec4,'E'}, {0x1ec5,'e'}, {0x1ec6,'E'}, {0x1ec7,'e'}, {0x1ec8,'I'}, {0x1ec9,'i'}, {0x1eca,'I'}, {0x1ecb,'i'},
	{0x1ecc,'O'}, {0x1ecd,'o'}, {0x1ece,'O'}, {0x1ecf,'o'}, {0x1ed0,'O'}, {0x1ed1,'o'}, {0x1ed2,'O'}, {0x1ed3,'o'}, {0x1ed4,'O'}, {0x1ed5,'o'},
	{0x1ed6,'O'}, {0x1ed7,'o'}, {0x1ed8,'O'}, {0x1ed9,'o'}, {0x1eda,'O'}, {0x1edb,'o'}, {0x1edc,'O'}, {0x1edd,'o'}, {0x1ede,'O'}, {0x1edf,'o'},
	{0x1ee0,'O'}, {0x1ee1,'o'}, {0x1ee2,'O'}, {0x1ee3,'o'}, {0x1ee4,'U'}, {0x1ee5,'u'}, {0x1ee6,'U'}, {0x1ee7,'u'}, {0x1ee8,'U'}, {0x1ee9,'u'},
	{0x1eea,'U'}, {0x1eeb,'u'}, {0x1eec,'U'}, {0x1eed,'u'}, {0x1eee,'U'}, {0x1eef,'u'}, {0x1ef0,'U'}, {0x1ef1,'u'}, {0x1ef2,'Y'}, {0x1ef3,'y'},
	{0x1ef4,'Y'}, {0x1ef5,'y'}, {0x1ef6,'Y'}, {0x1ef7,'y'}, {0x1ef8,'Y'}, {0x1ef9,'y'},
};
