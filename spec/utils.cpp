// Reference meaning of names, types and record comparison, written from the property statements (C01, C04, C05, C45, C46).
#include "utils.h"
#include "vp.h"

namespace vp
{
using Labels = vector<NodeLabel>;
using Records = vector<ResourceRecord>;

// C04: at most 63 characters a label, and 255 octets for the name with its length octets and the root label
tuple<bool, string> Length(Labels name, int)
{
    for (auto &l : name)
        if (l.get().length() > 63)
            return {false, l.get()};
    int octets = 1;
    for (auto &l : name)
        octets += l.get().length() + 1;
    if (octets > 255)
        return {false, ""};
    return {true, ""};
}

// C46
bool Under(const Labels &domain, const Labels &name)
{
    if (domain.size() > name.size())
        return false;
    for (int i = 0; i < domain.size(); i++)
        if (!(domain[i] == name[i]))
            return false;
    return true;
}
bool UnderAny(const vector<Labels> &domains, const Labels &name)
{
    for (auto &d : domains)
        if (LabelUtils::SubDomainCheck(d, name))
            return true;
    return false;
}
string NameText(Labels name)
{
    if (name.empty())
        return ".";
    string text = "";
    for (auto &l : name)
        text = l.get() + "." + text;
    return text;
}
string NamesText(vector<Labels> names)
{
    string text = "[";
    for (auto &d : names)
        text += LabelUtils::LabelsToString(d) + ", ";
    text.pop_back();
    text.pop_back();
    return text + "]";
}
Labels Split(string name)
{
    Labels labels;
    if (name.empty())
        return labels;
    if (name[name.length() - 1] != '.')
        name += ".";
    string label = "";
    for (auto c : name) {
        if (c == '.' && label.length() > 0 && label.back() != '\\') {
            labels.push_back(label);
            label = "";
        } else {
            label += c;
        }
    }
    std::reverse(labels.begin(), labels.end());
    return labels;
}

// C05
RRType TypeCode(const string &s)
{
    if (s == "A") return RRType::A;
    if (s == "NS") return RRType::NS;
    if (s == "CNAME") return RRType::CNAME;
    if (s == "DNAME") return RRType::DNAME;
    if (s == "SOA") return RRType::SOA;
    if (s == "PTR") return RRType::PTR;
    if (s == "MX") return RRType::MX;
    if (s == "TXT") return RRType::TXT;
    if (s == "AAAA") return RRType::AAAA;
    if (s == "SRV") return RRType::SRV;
    if (s == "RRSIG") return RRType::RRSIG;
    if (s == "NSEC") return RRType::NSEC;
    if (s == "SPF") return RRType::SPF;
    if (s == "DS") return RRType::DS;
    return RRType::N;
}

string TypeName(RRType type)
{
    vector<string> names(RRType::N, "");
    names[RRType::A] = "A";
    names[RRType::NS] = "NS";
    names[RRType::CNAME] = "CNAME";
    names[RRType::DNAME] = "DNAME";
    names[RRType::SOA] = "SOA";
    names[RRType::PTR] = "PTR";
    names[RRType::MX] = "MX";
    names[RRType::TXT] = "TXT";
    names[RRType::AAAA] = "AAAA";
    names[RRType::SRV] = "SRV";
    names[RRType::RRSIG] = "RRSIG";
    names[RRType::NSEC] = "NSEC";
    names[RRType::SPF] = "SPF";
    names[RRType::DS] = "DS";
    return names[type];
}
string TypeNames(std::bitset<RRType::N> types)
{
    std::set<string> names;
    for (int i = 0; i < RRType::N; i++)
        if (types[i])
            names.insert(TypeName(static_cast<RRType>(i)));
    string text = "";
    for (auto &n : names) {
        if (!text.empty())
            text += " ";
        text += n;
    }
    return text;
}

// C45
bool SameRecord(const ResourceRecord &a, const ResourceRecord &b)
{
    return a.name_ == b.get_name() && a.type_ == b.get_type() && a.rdata_ == b.get_rdata();
}
CommonSymDiff Compare(Records a, Records b)
{
    Records common;
    auto x = a.begin();
    while (x != a.end()) {
        auto y = b.begin();
        bool found = false;
        while (y != b.end()) {
            if (*x == *y) {
                common.push_back(*x);
                x = a.erase(x);
                b.erase(y);
                found = true;
                break;
            }
            y++;
        }
        if (!found)
            x++;
    }
    return std::make_tuple(common, a, b);
}
bool SameLabel(const NodeLabel &a, const NodeLabel &b)
{
    return a.n == b.n;
}
string RecordText(ResourceRecord &r)
{
    std::bitset<RRType::N> type;
    type.set(r.type_);
    return LabelUtils::LabelsToString(r.name_) + "   " + TypeUtils::TypesToString(type) + "   " + r.rdata_.get();
}
Labels Name(const ResourceRecord &r) { return r.name_; }
RRType Type(const ResourceRecord &r) { return r.type_; }
uint16_t Class(const ResourceRecord &r) { return r.class_; }
uint32_t Ttl(const ResourceRecord &r) { return r.ttl_; }
string Data(const ResourceRecord &r) { return r.rdata_; }
void SetName(ResourceRecord &r, string name) { r.name_ = LabelUtils::StringToLabels(name); }
void SetType(ResourceRecord &r, string type) { r.type_ = TypeUtils::StringToType(type); }
void SetClass(ResourceRecord &r, uint16_t c) { r.class_ = c; }
void SetTtl(ResourceRecord &r, uint32_t ttl) { r.ttl_ = ttl; }
string LabelText(const NodeLabel &l) { return l.n.get(); }
void SetLabel(NodeLabel &l, const std::string s) { l.n = s; }

// C55
void Issue(bool lint, string file, size_t line, string record, string violation, string previous)
{
    if (!lint)
        return;
    json j;
    j["File Name"] = file;
    j["Line Number"] = line;
    j["Current Record"] = record;
    j["Violation"] = violation;
    if (!previous.empty())
        j["Previous Record"] = previous;
    LintUtils::WriteIssueToFile(j, true);
}

// C55: an entry is appended to the file, after a comma unless it is the first.  Before the first entry the file is one
// line, every entry adds at least six.
void Append(json &entry, bool lint)
{
    if (!lint)
        return;
    int lines = 0;
    std::ifstream in("lint.json");
    if (in.is_open()) {
        string line;
        while (std::getline(in, line))
            ++lines;
    }
    assume(lines < 2 || lines > 6);
    std::ofstream out("lint.json", std::ios::app);
    if (lines > 1)
        out << ",\n";
    out << entry.dump(4, ' ', false, json::error_handler_t::replace);
}
}
