#include <libcxml/cxml.h>
#include <algorithm>

using std::string;
using std::vector;
using boost::optional;

namespace cxml {

Node::Node(xmlpp::Node const* node) : _node(const_cast<xmlpp::Node*>(node)) {}

string Node::name() const { return _node ? string(_node->get_name()) : ""; }

string Node::strip(string s)
{
	s.erase(std::remove(s.begin(), s.end(), ' '), s.end());
	return s;
}

vector<NodePtr> Node::node_children() const
{
	vector<NodePtr> n;
	for (auto i: _node->get_children()) {
		n.push_back(std::make_shared<Node>(i));
	}
	return n;
}

vector<NodePtr> Node::node_children(string const& name) const
{
	auto const glib_name = Glib::ustring(name);
	vector<NodePtr> n;
	for (auto i: _node->get_children()) {
		if (i->get_name() == glib_name) {
			n.push_back(std::make_shared<Node>(i));
		}
	}
	_taken.push_back(name);
	return n;
}

NodePtr Node::node_child(string const& name) const
{
	auto const n = node_children(name);
	if (n.size() > 1) {
		throw Error("duplicate XML tag " + name);
	} else if (n.empty()) {
		throw Error("missing XML tag " + name + " in " + this->name());
	}
	return n.front();
}

NodePtr Node::optional_node_child(string const& name) const
{
	auto const n = node_children(name);
	if (n.size() > 1) {
		throw Error("duplicate XML tag " + name);
	} else if (n.empty()) {
		return NodePtr();
	}
	return n.front();
}

string Node::string_child(string const& name) const { return node_child(name)->content(); }

optional<string> Node::optional_string_child(string const& name) const
{
	auto const n = node_children(name);
	if (n.size() > 1) {
		throw Error("duplicate XML tag " + name);
	}
	if (n.empty()) {
		return optional<string>();
	}
	return n.front()->content();
}

static bool to_bool(string const& s) { return s == "1" || s == "yes" || s == "True" || s == "true"; }

bool Node::bool_child(string const& name) const { return to_bool(string_child(name)); }

optional<bool> Node::optional_bool_child(string const& name) const
{
	auto s = optional_string_child(name);
	return s ? optional<bool>(to_bool(*s)) : optional<bool>();
}

void Node::ignore_child(string const& name) const { _taken.push_back(name); }

string Node::string_attribute(string const& name) const
{
	auto e = dynamic_cast<xmlpp::Element const*>(_node);
	if (!e) {
		throw Error("missing attribute " + name);
	}
	auto a = e->get_attribute(name);
	if (!a) {
		throw Error("missing attribute " + name);
	}
	return a->get_value();
}

optional<string> Node::optional_string_attribute(string const& name) const
{
	auto e = dynamic_cast<xmlpp::Element const*>(_node);
	if (!e) {
		return optional<string>();
	}
	auto a = e->get_attribute(name);
	if (!a) {
		return optional<string>();
	}
	return string(a->get_value());
}

bool Node::bool_attribute(string const& name) const { auto s = string_attribute(name); return s == "1" || s == "yes"; }

optional<bool> Node::optional_bool_attribute(string const& name) const
{
	auto s = optional_string_attribute(name);
	return s ? optional<bool>(*s == "1" || *s == "yes") : optional<bool>();
}

void Node::done() const
{
	for (auto i: _node->get_children()) {
		if (dynamic_cast<xmlpp::Element*>(i) && std::find(_taken.begin(), _taken.end(), i->get_name()) == _taken.end()) {
			throw Error("unexpected XML node " + string(i->get_name()));
		}
	}
}

string Node::content() const
{
	if (!_node) {
		return "";
	}
	string c;
	if (auto v = dynamic_cast<xmlpp::ContentNode const*>(_node)) {
		c += v->get_content();
	}
	for (auto i: _node->get_children()) {
		if (auto v = dynamic_cast<xmlpp::ContentNode const*>(i)) {
			if (!dynamic_cast<xmlpp::CommentNode const*>(i)) {
				c += v->get_content();
			}
		}
	}
	return c;
}

string Node::namespace_uri() const { return _node->get_namespace_uri(); }
string Node::namespace_prefix() const { return _node->get_namespace_prefix(); }
bool Node::is_text() const { return dynamic_cast<xmlpp::TextNode const*>(_node); }

Document::Document() {}
Document::Document(string const& root_name) : _root_name(root_name) {}
Document::Document(string const& root_name, boost::filesystem::path file) : _root_name(root_name) { read_file(file); }
Document::~Document() {}

void Document::read_file(boost::filesystem::path file)
{
	if (!boost::filesystem::exists(file)) {
		throw Error("XML file " + file.string() + " does not exist");
	}
	_parser = std::make_shared<xmlpp::DomParser>();
	_parser->parse_file(file.string());
	take_root_node();
}

void Document::read_string(string const& s)
{
	_parser = std::make_shared<xmlpp::DomParser>();
	_parser->parse_memory(s);
	take_root_node();
}

void Document::take_root_node()
{
	if (!_parser->get_document()) {
		throw Error("could not parse XML");
	}
	_node = _parser->get_document()->get_root_node();
	if (!_node) {
		throw Error("missing root node");
	}
	if (!_root_name.empty() && _node->get_name() != _root_name) {
		throw Error("unrecognised root node " + string(_node->get_name()) + " (expecting " + _root_name + ")");
	} else if (_root_name.empty()) {
		_root_name = _node->get_name();
	}
}

xmlpp::Element* add_child(xmlpp::Element* parent, string const& name, string const& ns_prefix) { return parent->add_child(name, ns_prefix); }
void add_text(xmlpp::Element* parent, string const& text) { parent->add_child_text(text); }

xmlpp::Element* add_text_child(xmlpp::Element* parent, string const& name, string const& text)
{
	auto c = parent->add_child(name);
	c->add_child_text(text);
	return c;
}

xmlpp::Element* add_text_child(xmlpp::Element* parent, string const& name, string const& ns_prefix, string const& text)
{
	auto c = parent->add_child(name, ns_prefix);
	c->add_child_text(text);
	return c;
}

void set_attribute(xmlpp::Element* parent, string const& name, string const& value) { parent->set_attribute(name, value); }

}
