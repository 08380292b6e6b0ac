// Code generated by tools/gen_c06.py. DO NOT EDIT.
package main

var sigNames = []string{"", "i", "s", "c", "d", "ii", "is", "ic", "id", "si", "ss", "sc", "sd", "ci", "cs", "cc", "cd", "di", "ds", "dc", "dd", "iii", "iis", "iic", "iid", "isi", "iss", "isc", "isd", "ici", "ics", "icc", "icd", "idi", "ids", "idc", "idd", "sii", "sis", "sic", "sid", "ssi", "sss", "ssc", "ssd", "sci", "scs", "scc", "scd", "sdi", "sds", "sdc", "sdd", "cii", "cis", "cic", "cid", "csi", "css", "csc", "csd", "cci", "ccs", "ccc", "ccd", "cdi", "cds", "cdc", "cdd", "dii", "dis", "dic", "did", "dsi", "dss", "dsc", "dsd", "dci", "dcs", "dcc", "dcd", "ddi", "dds", "ddc", "ddd"}

func (h *sigHub) M() string                                          { return h.run("") }
func (h *sigHub) Mi(p0 int) string                                   { return h.run("i", p0) }
func (h *sigHub) Ms(p0 string) string                                { return h.run("s", p0) }
func (h *sigHub) Mc(p0 <-chan int) string                            { return h.run("c", p0) }
func (h *sigHub) Md(p0 chan string) string                           { return h.run("d", p0) }
func (h *sigHub) Mii(p0 int, p1 int) string                          { return h.run("ii", p0, p1) }
func (h *sigHub) Mis(p0 int, p1 string) string                       { return h.run("is", p0, p1) }
func (h *sigHub) Mic(p0 int, p1 <-chan int) string                   { return h.run("ic", p0, p1) }
func (h *sigHub) Mid(p0 int, p1 chan string) string                  { return h.run("id", p0, p1) }
func (h *sigHub) Msi(p0 string, p1 int) string                       { return h.run("si", p0, p1) }
func (h *sigHub) Mss(p0 string, p1 string) string                    { return h.run("ss", p0, p1) }
func (h *sigHub) Msc(p0 string, p1 <-chan int) string                { return h.run("sc", p0, p1) }
func (h *sigHub) Msd(p0 string, p1 chan string) string               { return h.run("sd", p0, p1) }
func (h *sigHub) Mci(p0 <-chan int, p1 int) string                   { return h.run("ci", p0, p1) }
func (h *sigHub) Mcs(p0 <-chan int, p1 string) string                { return h.run("cs", p0, p1) }
func (h *sigHub) Mcc(p0 <-chan int, p1 <-chan int) string            { return h.run("cc", p0, p1) }
func (h *sigHub) Mcd(p0 <-chan int, p1 chan string) string           { return h.run("cd", p0, p1) }
func (h *sigHub) Mdi(p0 chan string, p1 int) string                  { return h.run("di", p0, p1) }
func (h *sigHub) Mds(p0 chan string, p1 string) string               { return h.run("ds", p0, p1) }
func (h *sigHub) Mdc(p0 chan string, p1 <-chan int) string           { return h.run("dc", p0, p1) }
func (h *sigHub) Mdd(p0 chan string, p1 chan string) string          { return h.run("dd", p0, p1) }
func (h *sigHub) Miii(p0 int, p1 int, p2 int) string                 { return h.run("iii", p0, p1, p2) }
func (h *sigHub) Miis(p0 int, p1 int, p2 string) string              { return h.run("iis", p0, p1, p2) }
func (h *sigHub) Miic(p0 int, p1 int, p2 <-chan int) string          { return h.run("iic", p0, p1, p2) }
func (h *sigHub) Miid(p0 int, p1 int, p2 chan string) string         { return h.run("iid", p0, p1, p2) }
func (h *sigHub) Misi(p0 int, p1 string, p2 int) string              { return h.run("isi", p0, p1, p2) }
func (h *sigHub) Miss(p0 int, p1 string, p2 string) string           { return h.run("iss", p0, p1, p2) }
func (h *sigHub) Misc(p0 int, p1 string, p2 <-chan int) string       { return h.run("isc", p0, p1, p2) }
func (h *sigHub) Misd(p0 int, p1 string, p2 chan string) string      { return h.run("isd", p0, p1, p2) }
func (h *sigHub) Mici(p0 int, p1 <-chan int, p2 int) string          { return h.run("ici", p0, p1, p2) }
func (h *sigHub) Mics(p0 int, p1 <-chan int, p2 string) string       { return h.run("ics", p0, p1, p2) }
func (h *sigHub) Micc(p0 int, p1 <-chan int, p2 <-chan int) string   { return h.run("icc", p0, p1, p2) }
func (h *sigHub) Micd(p0 int, p1 <-chan int, p2 chan string) string  { return h.run("icd", p0, p1, p2) }
func (h *sigHub) Midi(p0 int, p1 chan string, p2 int) string         { return h.run("idi", p0, p1, p2) }
func (h *sigHub) Mids(p0 int, p1 chan string, p2 string) string      { return h.run("ids", p0, p1, p2) }
func (h *sigHub) Midc(p0 int, p1 chan string, p2 <-chan int) string  { return h.run("idc", p0, p1, p2) }
func (h *sigHub) Midd(p0 int, p1 chan string, p2 chan string) string { return h.run("idd", p0, p1, p2) }
func (h *sigHub) Msii(p0 string, p1 int, p2 int) string              { return h.run("sii", p0, p1, p2) }
func (h *sigHub) Msis(p0 string, p1 int, p2 string) string           { return h.run("sis", p0, p1, p2) }
func (h *sigHub) Msic(p0 string, p1 int, p2 <-chan int) string       { return h.run("sic", p0, p1, p2) }
func (h *sigHub) Msid(p0 string, p1 int, p2 chan string) string      { return h.run("sid", p0, p1, p2) }
func (h *sigHub) Mssi(p0 string, p1 string, p2 int) string           { return h.run("ssi", p0, p1, p2) }
func (h *sigHub) Msss(p0 string, p1 string, p2 string) string        { return h.run("sss", p0, p1, p2) }
func (h *sigHub) Mssc(p0 string, p1 string, p2 <-chan int) string    { return h.run("ssc", p0, p1, p2) }
func (h *sigHub) Mssd(p0 string, p1 string, p2 chan string) string   { return h.run("ssd", p0, p1, p2) }
func (h *sigHub) Msci(p0 string, p1 <-chan int, p2 int) string       { return h.run("sci", p0, p1, p2) }
func (h *sigHub) Mscs(p0 string, p1 <-chan int, p2 string) string    { return h.run("scs", p0, p1, p2) }
func (h *sigHub) Mscc(p0 string, p1 <-chan int, p2 <-chan int) string {
	return h.run("scc", p0, p1, p2)
}
func (h *sigHub) Mscd(p0 string, p1 <-chan int, p2 chan string) string {
	return h.run("scd", p0, p1, p2)
}
func (h *sigHub) Msdi(p0 string, p1 chan string, p2 int) string    { return h.run("sdi", p0, p1, p2) }
func (h *sigHub) Msds(p0 string, p1 chan string, p2 string) string { return h.run("sds", p0, p1, p2) }
func (h *sigHub) Msdc(p0 string, p1 chan string, p2 <-chan int) string {
	return h.run("sdc", p0, p1, p2)
}
func (h *sigHub) Msdd(p0 string, p1 chan string, p2 chan string) string {
	return h.run("sdd", p0, p1, p2)
}
func (h *sigHub) Mcii(p0 <-chan int, p1 int, p2 int) string         { return h.run("cii", p0, p1, p2) }
func (h *sigHub) Mcis(p0 <-chan int, p1 int, p2 string) string      { return h.run("cis", p0, p1, p2) }
func (h *sigHub) Mcic(p0 <-chan int, p1 int, p2 <-chan int) string  { return h.run("cic", p0, p1, p2) }
func (h *sigHub) Mcid(p0 <-chan int, p1 int, p2 chan string) string { return h.run("cid", p0, p1, p2) }
func (h *sigHub) Mcsi(p0 <-chan int, p1 string, p2 int) string      { return h.run("csi", p0, p1, p2) }
func (h *sigHub) Mcss(p0 <-chan int, p1 string, p2 string) string   { return h.run("css", p0, p1, p2) }
func (h *sigHub) Mcsc(p0 <-chan int, p1 string, p2 <-chan int) string {
	return h.run("csc", p0, p1, p2)
}
func (h *sigHub) Mcsd(p0 <-chan int, p1 string, p2 chan string) string {
	return h.run("csd", p0, p1, p2)
}
func (h *sigHub) Mcci(p0 <-chan int, p1 <-chan int, p2 int) string { return h.run("cci", p0, p1, p2) }
func (h *sigHub) Mccs(p0 <-chan int, p1 <-chan int, p2 string) string {
	return h.run("ccs", p0, p1, p2)
}
func (h *sigHub) Mccc(p0 <-chan int, p1 <-chan int, p2 <-chan int) string {
	return h.run("ccc", p0, p1, p2)
}
func (h *sigHub) Mccd(p0 <-chan int, p1 <-chan int, p2 chan string) string {
	return h.run("ccd", p0, p1, p2)
}
func (h *sigHub) Mcdi(p0 <-chan int, p1 chan string, p2 int) string { return h.run("cdi", p0, p1, p2) }
func (h *sigHub) Mcds(p0 <-chan int, p1 chan string, p2 string) string {
	return h.run("cds", p0, p1, p2)
}
func (h *sigHub) Mcdc(p0 <-chan int, p1 chan string, p2 <-chan int) string {
	return h.run("cdc", p0, p1, p2)
}
func (h *sigHub) Mcdd(p0 <-chan int, p1 chan string, p2 chan string) string {
	return h.run("cdd", p0, p1, p2)
}
func (h *sigHub) Mdii(p0 chan string, p1 int, p2 int) string         { return h.run("dii", p0, p1, p2) }
func (h *sigHub) Mdis(p0 chan string, p1 int, p2 string) string      { return h.run("dis", p0, p1, p2) }
func (h *sigHub) Mdic(p0 chan string, p1 int, p2 <-chan int) string  { return h.run("dic", p0, p1, p2) }
func (h *sigHub) Mdid(p0 chan string, p1 int, p2 chan string) string { return h.run("did", p0, p1, p2) }
func (h *sigHub) Mdsi(p0 chan string, p1 string, p2 int) string      { return h.run("dsi", p0, p1, p2) }
func (h *sigHub) Mdss(p0 chan string, p1 string, p2 string) string   { return h.run("dss", p0, p1, p2) }
func (h *sigHub) Mdsc(p0 chan string, p1 string, p2 <-chan int) string {
	return h.run("dsc", p0, p1, p2)
}
func (h *sigHub) Mdsd(p0 chan string, p1 string, p2 chan string) string {
	return h.run("dsd", p0, p1, p2)
}
func (h *sigHub) Mdci(p0 chan string, p1 <-chan int, p2 int) string { return h.run("dci", p0, p1, p2) }
func (h *sigHub) Mdcs(p0 chan string, p1 <-chan int, p2 string) string {
	return h.run("dcs", p0, p1, p2)
}
func (h *sigHub) Mdcc(p0 chan string, p1 <-chan int, p2 <-chan int) string {
	return h.run("dcc", p0, p1, p2)
}
func (h *sigHub) Mdcd(p0 chan string, p1 <-chan int, p2 chan string) string {
	return h.run("dcd", p0, p1, p2)
}
func (h *sigHub) Mddi(p0 chan string, p1 chan string, p2 int) string { return h.run("ddi", p0, p1, p2) }
func (h *sigHub) Mdds(p0 chan string, p1 chan string, p2 string) string {
	return h.run("dds", p0, p1, p2)
}
func (h *sigHub) Mddc(p0 chan string, p1 chan string, p2 <-chan int) string {
	return h.run("ddc", p0, p1, p2)
}
func (h *sigHub) Mddd(p0 chan string, p1 chan string, p2 chan string) string {
	return h.run("ddd", p0, p1, p2)
}

func (h *sigReceiver) M()                                                  { h.run("") }
func (h *sigReceiver) Mi(p0 int)                                           { h.run("i", p0) }
func (h *sigReceiver) Ms(p0 string)                                        { h.run("s", p0) }
func (h *sigReceiver) Mc(p0 <-chan int)                                    { h.run("c", p0) }
func (h *sigReceiver) Md(p0 chan string)                                   { h.run("d", p0) }
func (h *sigReceiver) Mii(p0 int, p1 int)                                  { h.run("ii", p0, p1) }
func (h *sigReceiver) Mis(p0 int, p1 string)                               { h.run("is", p0, p1) }
func (h *sigReceiver) Mic(p0 int, p1 <-chan int)                           { h.run("ic", p0, p1) }
func (h *sigReceiver) Mid(p0 int, p1 chan string)                          { h.run("id", p0, p1) }
func (h *sigReceiver) Msi(p0 string, p1 int)                               { h.run("si", p0, p1) }
func (h *sigReceiver) Mss(p0 string, p1 string)                            { h.run("ss", p0, p1) }
func (h *sigReceiver) Msc(p0 string, p1 <-chan int)                        { h.run("sc", p0, p1) }
func (h *sigReceiver) Msd(p0 string, p1 chan string)                       { h.run("sd", p0, p1) }
func (h *sigReceiver) Mci(p0 <-chan int, p1 int)                           { h.run("ci", p0, p1) }
func (h *sigReceiver) Mcs(p0 <-chan int, p1 string)                        { h.run("cs", p0, p1) }
func (h *sigReceiver) Mcc(p0 <-chan int, p1 <-chan int)                    { h.run("cc", p0, p1) }
func (h *sigReceiver) Mcd(p0 <-chan int, p1 chan string)                   { h.run("cd", p0, p1) }
func (h *sigReceiver) Mdi(p0 chan string, p1 int)                          { h.run("di", p0, p1) }
func (h *sigReceiver) Mds(p0 chan string, p1 string)                       { h.run("ds", p0, p1) }
func (h *sigReceiver) Mdc(p0 chan string, p1 <-chan int)                   { h.run("dc", p0, p1) }
func (h *sigReceiver) Mdd(p0 chan string, p1 chan string)                  { h.run("dd", p0, p1) }
func (h *sigReceiver) Miii(p0 int, p1 int, p2 int)                         { h.run("iii", p0, p1, p2) }
func (h *sigReceiver) Miis(p0 int, p1 int, p2 string)                      { h.run("iis", p0, p1, p2) }
func (h *sigReceiver) Miic(p0 int, p1 int, p2 <-chan int)                  { h.run("iic", p0, p1, p2) }
func (h *sigReceiver) Miid(p0 int, p1 int, p2 chan string)                 { h.run("iid", p0, p1, p2) }
func (h *sigReceiver) Misi(p0 int, p1 string, p2 int)                      { h.run("isi", p0, p1, p2) }
func (h *sigReceiver) Miss(p0 int, p1 string, p2 string)                   { h.run("iss", p0, p1, p2) }
func (h *sigReceiver) Misc(p0 int, p1 string, p2 <-chan int)               { h.run("isc", p0, p1, p2) }
func (h *sigReceiver) Misd(p0 int, p1 string, p2 chan string)              { h.run("isd", p0, p1, p2) }
func (h *sigReceiver) Mici(p0 int, p1 <-chan int, p2 int)                  { h.run("ici", p0, p1, p2) }
func (h *sigReceiver) Mics(p0 int, p1 <-chan int, p2 string)               { h.run("ics", p0, p1, p2) }
func (h *sigReceiver) Micc(p0 int, p1 <-chan int, p2 <-chan int)           { h.run("icc", p0, p1, p2) }
func (h *sigReceiver) Micd(p0 int, p1 <-chan int, p2 chan string)          { h.run("icd", p0, p1, p2) }
func (h *sigReceiver) Midi(p0 int, p1 chan string, p2 int)                 { h.run("idi", p0, p1, p2) }
func (h *sigReceiver) Mids(p0 int, p1 chan string, p2 string)              { h.run("ids", p0, p1, p2) }
func (h *sigReceiver) Midc(p0 int, p1 chan string, p2 <-chan int)          { h.run("idc", p0, p1, p2) }
func (h *sigReceiver) Midd(p0 int, p1 chan string, p2 chan string)         { h.run("idd", p0, p1, p2) }
func (h *sigReceiver) Msii(p0 string, p1 int, p2 int)                      { h.run("sii", p0, p1, p2) }
func (h *sigReceiver) Msis(p0 string, p1 int, p2 string)                   { h.run("sis", p0, p1, p2) }
func (h *sigReceiver) Msic(p0 string, p1 int, p2 <-chan int)               { h.run("sic", p0, p1, p2) }
func (h *sigReceiver) Msid(p0 string, p1 int, p2 chan string)              { h.run("sid", p0, p1, p2) }
func (h *sigReceiver) Mssi(p0 string, p1 string, p2 int)                   { h.run("ssi", p0, p1, p2) }
func (h *sigReceiver) Msss(p0 string, p1 string, p2 string)                { h.run("sss", p0, p1, p2) }
func (h *sigReceiver) Mssc(p0 string, p1 string, p2 <-chan int)            { h.run("ssc", p0, p1, p2) }
func (h *sigReceiver) Mssd(p0 string, p1 string, p2 chan string)           { h.run("ssd", p0, p1, p2) }
func (h *sigReceiver) Msci(p0 string, p1 <-chan int, p2 int)               { h.run("sci", p0, p1, p2) }
func (h *sigReceiver) Mscs(p0 string, p1 <-chan int, p2 string)            { h.run("scs", p0, p1, p2) }
func (h *sigReceiver) Mscc(p0 string, p1 <-chan int, p2 <-chan int)        { h.run("scc", p0, p1, p2) }
func (h *sigReceiver) Mscd(p0 string, p1 <-chan int, p2 chan string)       { h.run("scd", p0, p1, p2) }
func (h *sigReceiver) Msdi(p0 string, p1 chan string, p2 int)              { h.run("sdi", p0, p1, p2) }
func (h *sigReceiver) Msds(p0 string, p1 chan string, p2 string)           { h.run("sds", p0, p1, p2) }
func (h *sigReceiver) Msdc(p0 string, p1 chan string, p2 <-chan int)       { h.run("sdc", p0, p1, p2) }
func (h *sigReceiver) Msdd(p0 string, p1 chan string, p2 chan string)      { h.run("sdd", p0, p1, p2) }
func (h *sigReceiver) Mcii(p0 <-chan int, p1 int, p2 int)                  { h.run("cii", p0, p1, p2) }
func (h *sigReceiver) Mcis(p0 <-chan int, p1 int, p2 string)               { h.run("cis", p0, p1, p2) }
func (h *sigReceiver) Mcic(p0 <-chan int, p1 int, p2 <-chan int)           { h.run("cic", p0, p1, p2) }
func (h *sigReceiver) Mcid(p0 <-chan int, p1 int, p2 chan string)          { h.run("cid", p0, p1, p2) }
func (h *sigReceiver) Mcsi(p0 <-chan int, p1 string, p2 int)               { h.run("csi", p0, p1, p2) }
func (h *sigReceiver) Mcss(p0 <-chan int, p1 string, p2 string)            { h.run("css", p0, p1, p2) }
func (h *sigReceiver) Mcsc(p0 <-chan int, p1 string, p2 <-chan int)        { h.run("csc", p0, p1, p2) }
func (h *sigReceiver) Mcsd(p0 <-chan int, p1 string, p2 chan string)       { h.run("csd", p0, p1, p2) }
func (h *sigReceiver) Mcci(p0 <-chan int, p1 <-chan int, p2 int)           { h.run("cci", p0, p1, p2) }
func (h *sigReceiver) Mccs(p0 <-chan int, p1 <-chan int, p2 string)        { h.run("ccs", p0, p1, p2) }
func (h *sigReceiver) Mccc(p0 <-chan int, p1 <-chan int, p2 <-chan int)    { h.run("ccc", p0, p1, p2) }
func (h *sigReceiver) Mccd(p0 <-chan int, p1 <-chan int, p2 chan string)   { h.run("ccd", p0, p1, p2) }
func (h *sigReceiver) Mcdi(p0 <-chan int, p1 chan string, p2 int)          { h.run("cdi", p0, p1, p2) }
func (h *sigReceiver) Mcds(p0 <-chan int, p1 chan string, p2 string)       { h.run("cds", p0, p1, p2) }
func (h *sigReceiver) Mcdc(p0 <-chan int, p1 chan string, p2 <-chan int)   { h.run("cdc", p0, p1, p2) }
func (h *sigReceiver) Mcdd(p0 <-chan int, p1 chan string, p2 chan string)  { h.run("cdd", p0, p1, p2) }
func (h *sigReceiver) Mdii(p0 chan string, p1 int, p2 int)                 { h.run("dii", p0, p1, p2) }
func (h *sigReceiver) Mdis(p0 chan string, p1 int, p2 string)              { h.run("dis", p0, p1, p2) }
func (h *sigReceiver) Mdic(p0 chan string, p1 int, p2 <-chan int)          { h.run("dic", p0, p1, p2) }
func (h *sigReceiver) Mdid(p0 chan string, p1 int, p2 chan string)         { h.run("did", p0, p1, p2) }
func (h *sigReceiver) Mdsi(p0 chan string, p1 string, p2 int)              { h.run("dsi", p0, p1, p2) }
func (h *sigReceiver) Mdss(p0 chan string, p1 string, p2 string)           { h.run("dss", p0, p1, p2) }
func (h *sigReceiver) Mdsc(p0 chan string, p1 string, p2 <-chan int)       { h.run("dsc", p0, p1, p2) }
func (h *sigReceiver) Mdsd(p0 chan string, p1 string, p2 chan string)      { h.run("dsd", p0, p1, p2) }
func (h *sigReceiver) Mdci(p0 chan string, p1 <-chan int, p2 int)          { h.run("dci", p0, p1, p2) }
func (h *sigReceiver) Mdcs(p0 chan string, p1 <-chan int, p2 string)       { h.run("dcs", p0, p1, p2) }
func (h *sigReceiver) Mdcc(p0 chan string, p1 <-chan int, p2 <-chan int)   { h.run("dcc", p0, p1, p2) }
func (h *sigReceiver) Mdcd(p0 chan string, p1 <-chan int, p2 chan string)  { h.run("dcd", p0, p1, p2) }
func (h *sigReceiver) Mddi(p0 chan string, p1 chan string, p2 int)         { h.run("ddi", p0, p1, p2) }
func (h *sigReceiver) Mdds(p0 chan string, p1 chan string, p2 string)      { h.run("dds", p0, p1, p2) }
func (h *sigReceiver) Mddc(p0 chan string, p1 chan string, p2 <-chan int)  { h.run("ddc", p0, p1, p2) }
func (h *sigReceiver) Mddd(p0 chan string, p1 chan string, p2 chan string) { h.run("ddd", p0, p1, p2) }
