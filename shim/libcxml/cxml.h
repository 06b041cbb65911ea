/* A stand-in for libcxml, written against its public API as used by libdcp, on top of libxml++ 2.6.
   Not instrumented-library code under test: it only provides what the unmodified libdcp sources need. */
#ifndef LIBCXML_CXML_H
#define LIBCXML_CXML_H

#include <boost/filesystem.hpp>
#include <boost/optional.hpp>
#include <glibmm.h>
#include <libxml++/libxml++.h>
#include <cmath>
#include <list>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace cxml {

class Error : public std::runtime_error
{
public:
	explicit Error(std::string const& message) : std::runtime_error(message) {}
};

class Node;
typedef std::shared_ptr<cxml::Node> NodePtr;
typedef std::shared_ptr<const cxml::Node> ConstNodePtr;

template <class P>
P raw_convert(std::string const& s)
{
	std::stringstream t;
	t.imbue(std::locale::classic());
	/* ignore grouping spaces and stray text in the same way as libcxml's numeric_child */
	t << s;
	P r = P();
	t >> r;
	return r;
}

class Node
{
public:
	Node() {}
	explicit Node(xmlpp::Node const* node);

	std::string name() const;
	std::string content() const;
	std::string namespace_uri() const;
	std::string namespace_prefix() const;
	bool is_text() const;

	std::string string_child(std::string const& name) const;
	boost::optional<std::string> optional_string_child(std::string const& name) const;
	bool bool_child(std::string const& name) const;
	boost::optional<bool> optional_bool_child(std::string const& name) const;
	void ignore_child(std::string const& name) const;

	template <class T> T number_child(std::string const& name) const {
		return raw_convert<T>(strip(string_child(name)));
	}

	template <class T> boost::optional<T> optional_number_child(std::string const& name) const {
		auto s = optional_string_child(name);
		if (!s) {
			return boost::optional<T>();
		}
		return raw_convert<T>(strip(*s));
	}

	std::string string_attribute(std::string const& name) const;
	boost::optional<std::string> optional_string_attribute(std::string const& name) const;
	bool bool_attribute(std::string const& name) const;
	boost::optional<bool> optional_bool_attribute(std::string const& name) const;

	template <class T> T number_attribute(std::string const& name) const {
		return raw_convert<T>(strip(string_attribute(name)));
	}

	template <class T> boost::optional<T> optional_number_attribute(std::string const& name) const {
		auto s = optional_string_attribute(name);
		if (!s) {
			return boost::optional<T>();
		}
		return raw_convert<T>(strip(*s));
	}

	void done() const;

	NodePtr node_child(std::string const& name) const;
	NodePtr optional_node_child(std::string const& name) const;
	std::vector<NodePtr> node_children() const;
	std::vector<NodePtr> node_children(std::string const& name) const;

	xmlpp::Node* node() const { return _node; }

protected:
	xmlpp::Node* _node = nullptr;

private:
	static std::string strip(std::string s);
	mutable std::list<Glib::ustring> _taken;
};

class Document : public Node
{
public:
	Document();
	explicit Document(std::string const& root_name);
	Document(std::string const& root_name, boost::filesystem::path file);
	virtual ~Document();

	void read_file(boost::filesystem::path file);
	void read_string(std::string const& s);

	std::string root_name() const { return _root_name; }

private:
	void take_root_node();

	std::shared_ptr<xmlpp::DomParser> _parser;
	std::string _root_name;
};

xmlpp::Element* add_child(xmlpp::Element* parent, std::string const& name, std::string const& ns_prefix = "");
void add_text(xmlpp::Element* parent, std::string const& text);
xmlpp::Element* add_text_child(xmlpp::Element* parent, std::string const& name, std::string const& text);
xmlpp::Element* add_text_child(xmlpp::Element* parent, std::string const& name, std::string const& ns_prefix, std::string const& text);
void set_attribute(xmlpp::Element* parent, std::string const& name, std::string const& value);

}

#endif
