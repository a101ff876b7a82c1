// Reference meaning of zone file text, written from the property statements (C01-C04, C06-C08, C55).
#include "zone-file-parser.cpp"

#include "vp.h"

namespace vp
{
using boost::algorithm::ends_with;
using Fields = vector<string>;
using Token = lex::lexertl::lexer<>::token_type;

// Position of the field that names a supported type; the first field is the owner name, whatever it looks like.
int TypeField(Parser &self, Fields &fields)
{
    int i = 0;
    for (string f : fields) {
        if (i > 0 && f.size() < 6) {
            boost::to_upper(f);
            if (f == "A" || f == "MX" || f == "NS" || f == "CNAME" || f == "SOA" || f == "PTR" || f == "TXT" ||
                f == "AAAA" || f == "SRV" || f == "DNAME" || f == "RRSIG" || f == "NSEC" || f == "DS" || f == "SPF")
                return i;
        }
        i++;
    }
    return -1;
}

// The number a text starts with, nothing when there is none or it is too large.
boost::optional<int> Number(Parser &self, const string &s)
{
    try {
        return std::stoi(s);
    } catch (...) {
        return {};
    }
}

// A text that is a number from its first character to its last.
bool IsNumber(Parser &self, const string &s)
{
    if (s.empty())
        return false;
    if (isdigit(s[0]) || s[0] == '-' || s[0] == '+') {
        char *end;
        strtol(s.c_str(), &end, 10);
        return *end == 0;
    }
    return false;
}

// A record that was read: it goes into the zone and the name tree, or is left out for one reason that is counted.
void Load(ResourceRecord RR, string name, string type, size_t l, label::Graph &tree, zone::Graph &z, MiniContext &mc)
{
    auto [legal, label] = LabelUtils::LengthCheck(RR.get_name(), 0);
    if (!legal) {
        if (label.length() > 0) {
            mc.type_to_count["Label Length Exceeded"]++;
            LintUtils::WriteRRIssueToFile(
                mc.lint, mc.file_name, l, RR.toString(), label + " - length exceedes max length (63)", "");
        } else {
            mc.type_to_count["Domain Length Exceeded"]++;
            LintUtils::WriteRRIssueToFile(
                mc.lint, mc.file_name, l, RR.toString(), "Domain length exceedes max length (255)", "");
        }
        return;
    }
    if (RR.get_type() == RRType::NS || RR.get_type() == RRType::CNAME || RR.get_type() == RRType::DNAME) {
        auto [ok, part] = LabelUtils::LengthCheck(LabelUtils::StringToLabels(RR.get_rdata()), 0);
        if (!ok) {
            if (part.length() > 0) {
                mc.type_to_count["Label Length Exceeded"]++;
                LintUtils::WriteRRIssueToFile(
                    mc.lint, mc.file_name, l, RR.toString(), part + " - length exceedes 63", "");
            } else {
                mc.type_to_count["Domain Length Exceeded"]++;
                LintUtils::WriteRRIssueToFile(
                    mc.lint, mc.file_name, l, RR.toString(), "Target domain length exceedes max length (255)", "");
            }
            return;
        }
    }
    if (!z.CheckZoneMembership(RR, mc.file_name)) {
        mc.type_to_count["Out-of-Zone-Records"]++;
        LintUtils::WriteRRIssueToFile(mc.lint, mc.file_name, l, RR.toString(), "OUT OF ZONE RECORD", "");
        return;
    }
    auto [code, node] = z.AddResourceRecord(RR);
    if (code == zone::RRAddCode::SUCCESS) {
        tree.AddResourceRecord(RR, z.get_id(), node.get());
        mc.type_to_count[type]++;
        if (boost::algorithm::starts_with(name, "*."))
            mc.type_to_count["Wildcard"]++;
        return;
    }
    if (code == zone::RRAddCode::DUPLICATE) {
        mc.type_to_count["Duplicate-Records"]++;
        LintUtils::WriteRRIssueToFile(mc.lint, mc.file_name, l, RR.toString(), "Duplicate Record", "");
    }
    if (code == zone::RRAddCode::CNAME_MULTIPLE) {
        mc.type_to_count["CNAME/DNAME Errors"]++;
        LintUtils::WriteRRIssueToFile(
            mc.lint, mc.file_name, l, RR.toString(), "MULTIPLE CNAMEs", z[node.get()].rrs[0].toString());
    }
    if (code == zone::RRAddCode::CNAME_OTHER) {
        mc.type_to_count["CNAME/DNAME Errors"]++;
        LintUtils::WriteRRIssueToFile(
            mc.lint, mc.file_name, l, RR.toString(), "CNAME AND OTHER TYPES", z[node.get()].rrs[0].toString());
    }
    if (code == zone::RRAddCode::DNAME_MULTIPLE) {
        mc.type_to_count["CNAME/DNAME Errors"]++;
        LintUtils::WriteRRIssueToFile(
            mc.lint, mc.file_name, l, RR.toString(), "MULTIPLE DNAMEs", z[node.get()].rrs[0].toString());
    }
}

// A complete entry; false when the file cannot be read any further.
bool Entry(
    Parser &self, size_t l, string &origin, ResourceRecord &last, Fields &fields, label::Graph &tree, zone::Graph &z,
    MiniContext &mc)
{
    if (fields[0] == "$ORIGIN") {
        if (fields.size() >= 2) {
            string name = fields[1];
            boost::to_lower(name);
            origin = ends_with(name, ".") ? name : name + "." + origin;
        }
        return true;
    }
    if (fields[0] == "$INCLUDE")
        return false;
    if (fields[0] == "$TTL") {
        if (fields.size() >= 2) {
            auto n = self.ToInteger(fields[1]);
            if (n)
                last.set_ttl(n.get());
        }
        return true;
    }
    if (fields[0] == "@") {
        if (origin.empty())
            return false;
        fields[0] = origin;
        last.set_name(origin);
    }
    int at = self.GetTypeIndex(fields);
    if (at == -1)
        return true;
    string type = fields[at];
    if (at > 3)
        return true;
    boost::to_upper(type);

    string name = "", data = "";
    uint16_t class_ = 1;
    uint32_t ttl = last.get_ttl();
    int i = 0;
    for (auto &field : fields) {
        if (i > at)
            data += field + " ";
        else if (i == 0 && i < at) {
            if (!field.empty()) {
                name = field;
                last.set_name(field);
            }
        } else if (i < at) {
            if (boost::iequals(field, "CH"))
                class_ = 3;
            else if (boost::iequals(field, "IN"))
                class_ = 1;
            else if (self.isInteger(field) && self.ToInteger(field)) {
                ttl = self.ToInteger(field).get();
                if (last.get_ttl() == 0)
                    last.set_ttl(ttl);
            } else
                return true;
        }
        i++;
    }
    data = data.substr(0, data.size() - 1);

    if (name.empty())
        name = LabelUtils::LabelsToString(last.get_name());
    else if (type == "SOA") {
        mc.found_SOA = true;
        if (origin.empty())
            origin = name;
    }
    if (!ends_with(name, ".")) {
        name = name + "." + origin;
        last.set_name(name);
    }
    if ((type == "NS" || type == "CNAME" || type == "DNAME" || type == "MX") && !ends_with(data, ".")) {
        if (data == "@" || ends_with(data, " @"))
            data = data.substr(0, data.size() - 1) + origin;
        else
            data = data + "." + origin;
    }
    boost::to_lower(data);
    boost::to_lower(name);
    mc.rrs_parsed++;
    Load(ResourceRecord(name, type, class_, ttl, data), name, type, l, tree, z, mc);
    return true;
}

bool Read(
    Parser &self, const Token &t, size_t &l, int &open, string &origin, ResourceRecord &last, Fields &fields,
    label::Graph &tree, zone::Graph &z, MiniContext &mc)
{
    auto id = t.id();
    if (id == ID_LPAREN)
        open++;
    else if (id == ID_RPAREN) {
        open--;
        if (open < 0)
            return false;
    }
    else if (id == ID_TEXT_WORD || id == ID_WORD)
        fields.push_back(string(t.value().begin(), t.value().end()));
    else if (id == ID_WHITESPACE) {
        if (fields.empty())
            fields.push_back("");
    } else if (id == ID_EOL) {
        l++;
        if (open == 0 && !fields.empty()) {
            if (!Entry(self, l, origin, last, fields, tree, z, mc))
                return false;
            fields.clear();
        }
    }
    return true;
}

// A zone file extends the name tree; its zone is kept under the name server when it has a start of authority.
int LoadFile(Driver &self, string file, string server, string origin, bool lint)
{
    int id = ++self.context_.zoneId_counter_;
    zone::Graph z(id);
    MiniContext mc;
    mc.file_name = file;
    mc.lint = lint;
    string text = ReadFromFile(file.c_str());
    text += "\n";
    char const *first = text.c_str();
    char const *last = &first[text.size()];
    size_t line = 0;
    int open = 0;
    ResourceRecord defaults("", "", 0, 0, "");
    Fields fields;
    zone_file_tokens<lex::lexertl::lexer<>> tokens;
    auto read = boost::bind(
        Parser(), _1, boost::ref(line), boost::ref(open), boost::ref(origin), boost::ref(defaults), boost::ref(fields),
        boost::ref(self.label_graph_), boost::ref(z), boost::ref(mc));
    lex::tokenize(first, last, tokens, read);
    for (auto &[type, count] : mc.type_to_count)
        if (self.context_.type_to_rr_count.count(type))
            self.context_.type_to_rr_count[type] += count;
        else
            self.context_.type_to_rr_count[type] = count;
    if (mc.found_SOA) {
        self.context_.zoneId_to_zone.insert({id, z});
        if (!self.context_.nameserver_zoneIds_map.count(server))
            self.context_.nameserver_zoneIds_map.insert({server, {}});
        self.context_.nameserver_zoneIds_map[server].push_back(id);
        self.context_.zoneId_nameserver_map.insert({id, Nameserver(server)});
    }
    return mc.rrs_parsed;
}

// C02, C56: all of the file, or the run fails
string Text(char const *name)
{
    std::ifstream in(name);
    if (!in)
        exit(EXIT_FAILURE);
    return string(std::istreambuf_iterator<char>(in), std::istreambuf_iterator<char>());
}
} // namespace vp
