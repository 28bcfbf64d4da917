// C19: one valid input, many damages, each a run of the real program (AddressSanitizer and hardened library) up to its first result file.
// must the text be rejected? (only when that is certain: see properties.jsonl)
static bool notNumber(const std::string& raw)
{
	auto s = raw; auto ws = [](char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == '\v' || c == '\f'; };
	while (!s.empty() && ws(s.back())) { s.pop_back(); }
	while (!s.empty() && ws(s.front())) { s.erase(0, 1); }
	if (s.empty()) { return true; }
	char* e = nullptr; const double x = std::strtod(s.c_str(), &e);
	return e != s.c_str() + s.size() || std::isnan(x);
}
static std::string tableProblem(const std::string& text, int dim)
{
	auto lines = split(text, '\n');
	std::size_t l = 0; while (l < lines.size() && lines[l].empty()) { l++; }
	if (l == lines.size()) { return "no header"; }
	auto head = split(strip(lines[l]), ',');
	if (strip(lines[l]).empty()) { return ""; }
	std::map<std::string, std::size_t> at; bool odd = false;
	for (std::size_t i = 0; i < head.size(); i++)
	{
		auto nm = head[i]; while (!nm.empty() && std::strchr("\r\v\f", nm.back()) && nm.back()) { nm.pop_back(); odd = true; }
		bool known = false; for (std::size_t k = 0; k < colCount(dim); k++) { known = known || nm == colsOf(dim, k); }
		if (!known) { return "unknown column '" + nm + "'"; }
		if (at.count(nm)) { odd = true; }
		at[nm] = i;
	}
	for (std::size_t k = 0; k < colCount(dim); k++) { if (!at.count(colsOf(dim, k))) { return std::string("no column ") + colsOf(dim, k); } }
	std::size_t rows = 0;
	for (l++; l < lines.size(); l++)
	{
		auto s = strip(lines[l]); if (s.empty()) { continue; }
		auto c = split(s, ',');
		rows++;
		if (odd) { continue; }
		if (c.size() < head.size()) { return fmt("row with %zu cells", c.size()); }
		for (std::size_t i = 0; i < head.size(); i++)
		{
			if (notNumber(c[i]) || std::isinf(val(c[i]))) { return "cell '" + c[i] + "'"; }
			if (i == at["Type"]) { const double t = val(c[i]); if (t < 0 || t > 3 || t != std::floor(t)) { return "type '" + c[i] + "'"; } }
		}
	}
	if (rows == 0) { return "no rows"; }
	return "";
}
std::string problem(const std::string& xml) const
{
	boost::property_tree::ptree t;
	try { std::istringstream s(xml); boost::property_tree::read_xml(s, t); } catch (const std::exception& e) { return std::string("not XML: ") + e.what(); }
	const auto in = inputOf(plan, f);
	for (int k = 0; k < 2; k++)
	{
		for (auto& q : k ? in.env : in.cond)
		{
			const auto v = t.get_optional<std::string>(std::string(k ? "openmps.environment." : "openmps.condition.") + q.first + ".<xmlattr>.value");
			if (!v) { return "no value of " + q.first; }
			if (notNumber(*v)) { return q.first + " is '" + *v + "'"; }
		}
	}
	const auto ty = t.get_optional<std::string>("openmps.particles.<xmlattr>.type");
	if (!ty) { return "no particle format"; }
	std::string low; for (char c : strip(*ty)) { low += static_cast<char>(std::tolower(static_cast<unsigned char>(c))); }
	if (low != "csv") { return "particle format '" + *ty + "'"; }
	return tableProblem(t.get<std::string>("openmps.particles"), f.dim);
}

void run()
{
	const auto in = inputOf(plan, f); const auto table = tableOf(plan, f.dim); const auto xml = xmlOf(in);
	os::Faults none; none.stopAtOutput = true;
	if (table.rows.empty()) { return; }
	const auto base = program(xml, none);
	if (!sane(base, "valid input")) { return; }
	if (base.how != "output") { fail("rejected", "a valid input is rejected: " + base.how + " " + base.what); return; }
	probe["accepted_valid"]++;
	const auto end = xml.rfind('>');
	for (auto& o : plan.ops)
	{
		if (o.kind != "damage") { continue; }
		os::Faults fl = none; sim::Rng r(static_cast<sim::u64>(o.g));
		std::string x = xml, what, why; bool harmless = false, sure = true;
		auto pos = [&](std::size_t n) { return n == 0 ? 0 : std::min(static_cast<std::size_t>(o.v * static_cast<double>(n)), n - 1); };
		auto pick = [&](std::initializer_list<const char*> l) { return std::string(*(l.begin() + static_cast<long>(r.below(l.size())))); };
		auto withTable = [&](const Table& t) { auto i = in; i.tableText = text(plan, t); return xmlOf(i); };
		auto t = table;
		const auto row = pos(t.rows.size()), col = static_cast<std::size_t>(r.below(t.head.size()));
		switch (o.failAlloc)
		{
		case 0: what = "file missing"; fl.noInput = true; break;
		case 1: what = "file truncated"; x = xml.substr(0, pos(end)); break;
		case 2: what = "file empty"; x = r.chance(0.5) ? "" : "\n"; break;
		case 3: what = "header lacks " + t.head[col]; t.head.erase(t.head.begin() + static_cast<long>(col)); x = withTable(t); break;
		case 4: what = "no column " + t.head[col]; t.head.erase(t.head.begin() + static_cast<long>(col)); for (auto& q : t.rows) { q.erase(q.begin() + static_cast<long>(col)); } x = withTable(t); break;
		case 5: { const auto nm = pick({ "q", "X", "type", "xx", "", "pressure", "N", "y1", "0", "-" }); what = "column " + t.head[col] + " is called '" + nm + "'"; t.head[col] = nm; x = withTable(t); break; }
		case 6: { const auto k = (col + 1 + r.below(t.head.size() - 1)) % t.head.size(); what = "column " + t.head[col] + " is called " + t.head[k]; t.head[col] = t.head[k]; x = withTable(t); break; }
		case 7: what = "additional unknown column"; t.head.insert(t.head.begin() + static_cast<long>(col), pick({ "id", "rho", "T", "" })); for (auto& q : t.rows) { q.insert(q.begin() + static_cast<long>(col), "0"); } x = withTable(t); break;
		case 8: { const auto k = static_cast<std::size_t>(r.below(t.head.size() - 1)) + 1; what = fmt("row %zu has only %zu cells", row + 1, k); t.rows[row].resize(k); x = withTable(t); break; }
		case 9: { const auto c = t.head[col] == "Type" ? (col + 1) % t.head.size() : col; const auto v = pick({ "abc", "12abc", "", "1..2", "1e", "--1", "0x", "1;2", "nan", ".", "-", "e5", "1.5.2", "0.1m", "#", "inf", "-inf", "infinity", "1e999", "-1e400", "NAN", "nan(1)" }); what = fmt("row %zu, %s is '%s'", row + 1, t.head[c].c_str(), v.c_str()); t.rows[row][c] = v; x = withTable(t); break; }
		case 10: { std::size_t c = 0; while (t.head[c] != "Type") { c++; } const auto v = pick({ "4", "-1", "99", "abc", "", "1.5", "2x", "256", "257", "65536", "4294967296", "4294967297", "-4294967295", "Wall" }); what = fmt("row %zu, Type is '%s'", row + 1, v.c_str()); t.rows[row][c] = v; x = withTable(t); break; }
		case 11: what = "no rows"; t.rows.clear(); x = withTable(t); break;
		case 12: { what = "no table"; auto i = in; i.tableText = pick({ "", "\n", "\n\n\n", "\n\n" }); x = xmlOf(i); break; }
		case 13: case 14: case 15:
		{
			auto i = in; auto& l = r.below(in.cond.size() + in.env.size()) < in.cond.size() ? i.cond : i.env; const auto k = static_cast<std::size_t>(r.below(l.size()));
			if (o.failAlloc == 13) { what = "no value " + l[k].first; l.erase(l.begin() + static_cast<long>(k)); x = xmlOf(i); }
			else if (o.failAlloc == 14) { l[k].second = pick({ "abc", "", "1,5", "1e", "0.1s", "--1", "0.1 0.2", "." }); what = l[k].first + " is '" + l[k].second + "'"; x = xmlOf(i); }
			else { what = "attribute of " + l[k].first + " renamed"; const auto at_ = x.find("<" + l[k].first + " value"); x.replace(at_ + l[k].first.size() + 2, 5, pick({ "valu", "Value", "val", "values" })); }
			break;
		}
		case 16:
		{
			const auto k = x.find(" type=\"csv\"");
			if (r.chance(0.4)) { what = "particle format missing"; x.erase(k, 11); } else { const auto v = pick({ "bin", "", "csv2", "xml", "cs", "vtk" }); what = "particle format is '" + v + "'"; x.replace(k + 7, 3, v); }
			break;
		}
		case 17:
		{
			const auto nm = pick({ "condition", "environment", "particles", "openmps" }); what = "element " + nm + " is called otherwise";
			for (auto s : { "<" + nm, "</" + nm }) { const auto k = x.find(s); x.replace(k, s.size(), s + "x"); }
			break;
		}
		case 18: what = "read error"; fl.readErr = static_cast<long long>(pos(end)); break;
		case 19: { what = "byte changed"; sure = false; const auto k = pos(x.size()); x[k] = static_cast<char>(static_cast<unsigned char>(x[k]) ^ (1u << r.below(8))); break; }
		case 20: what = "byte lost"; sure = false; x.erase(pos(x.size()), 1); break;
		case 21: what = "byte inserted"; sure = false; x.insert(pos(x.size()), 1, static_cast<char>(r.chance(0.7) ? 32 + r.below(95) : r.below(256))); break;
		case 22: what = "short reads"; harmless = true; fl.shortReads = true; break;
		case 23: { what = "line lost"; sure = false; const auto k = pos(x.size()); const auto b = x.rfind('\n', k); const auto e = x.find('\n', k); if (b != std::string::npos && e != std::string::npos && b < e) { x.erase(b, e - b); } break; }
		case 24: { what = "block of zeros"; sure = false; const auto k = pos(x.size()); const auto n = std::min<std::size_t>(x.size() - k, 1 + r.below(600)); std::fill(x.begin() + static_cast<long>(k), x.begin() + static_cast<long>(k + n), '\0'); break; }
		case 25: { what = "bytes lost"; sure = false; const auto k = pos(x.size()); x.erase(k, 1 + r.below(200)); break; }
		default: { what = "byte in the table changed"; sure = false; const auto b = x.find("type=\"csv\">") + 11, e = x.find("</particles"); const auto k = b + pos(e - b); const char* cs = ",,\n\t -.eE+x0129qn;"; x[k] = cs[r.below(17)]; break; }
		}
		// a certain rejection also by the validator, where it looks only at the text
		if (sure && !harmless && !fl.noInput && fl.readErr < 0 && problem(x).empty()) { continue; }
		why = sure ? what : problem(x);
		const auto q = program(x, fl);
		probe[fmt("damage%02lld", o.failAlloc)]++;
		if (q.how == "none") { fail("crash", what + fmt(": the process died with signal %d: ", q.sig) + oneLine(q.err).substr(0, 300)); return; }
		if (q.how == "hang" || q.how == "runaway" || q.how == "fatal") { fail("hang", what + ": the program does not end: " + q.what); return; }
		if (harmless)
		{
			if (q.how != "output") { fail("rejected", what + ": a valid input is rejected: " + q.how + " " + q.what); return; }
			continue;
		}
		if (why.empty()) { probe["still_readable"]++; continue; }
		probe[sure ? "judged_damages" : "judged_random_damages"]++;
		if (q.how == "output") { fail("accepted", (sure ? what : what + " (" + why + ")") + ": the input is accepted"); return; }
		if (q.how == "return" && q.ret == 0) { fail("status", (sure ? what : what + " (" + why + ")") + ": the program ends successfully"); return; }
		if (!q.files.empty()) { fail("written", what + ": " + q.files.begin()->first + " was written"); return; }
	}
}
