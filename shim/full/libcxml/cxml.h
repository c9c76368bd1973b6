/* A stand-in for libcxml (https://git.carlh.net/git/libcxml.git), with the parts of its interface that libdcp uses, written
 * from its documentation and from what libdcp expects of it.
 */

#ifndef LIBCXML_CXML_H
#define LIBCXML_CXML_H

#include <boost/filesystem.hpp>
#include <boost/optional.hpp>
#include <libxml++/libxml++.h>
#include <algorithm>
#include <cmath>
#include <list>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace cxml {

class Error : public std::runtime_error
{
public:
	explicit Error(std::string const& message) : std::runtime_error(message) {}
};

template <class T>
T raw_convert(std::string v)
{
	v.erase(std::remove_if(v.begin(), v.end(), [](unsigned char c) { return isspace(c); }), v.end());
	std::stringstream s;
	s.imbue(std::locale::classic());
	s << v;
	T t = T();
	s >> t;
	return t;
}

class Node;
typedef std::shared_ptr<Node> NodePtr;
typedef std::shared_ptr<const Node> ConstNodePtr;

class Node
{
public:
	Node() {}
	explicit Node(xmlpp::Node const* node) : _node(const_cast<xmlpp::Node*>(node)) {}
	virtual ~Node() {}

	std::string name() const;

	std::string string_child(std::string name) const;
	boost::optional<std::string> optional_string_child(std::string name) const;
	bool bool_child(std::string name) const;
	boost::optional<bool> optional_bool_child(std::string name) const;

	template <class T>
	T number_child(std::string name) const { return raw_convert<T>(string_child(name)); }

	template <class T>
	boost::optional<T> optional_number_child(std::string name) const
	{
		auto s = optional_string_child(name);
		return s ? boost::optional<T>(raw_convert<T>(*s)) : boost::optional<T>();
	}

	std::string string_attribute(std::string name) const;
	boost::optional<std::string> optional_string_attribute(std::string name) const;
	bool bool_attribute(std::string name) const;
	boost::optional<bool> optional_bool_attribute(std::string name) const;

	template <class T>
	T number_attribute(std::string name) const { return raw_convert<T>(string_attribute(name)); }

	template <class T>
	boost::optional<T> optional_number_attribute(std::string name) const
	{
		auto s = optional_string_attribute(name);
		return s ? boost::optional<T>(raw_convert<T>(*s)) : boost::optional<T>();
	}

	/** @return the text that is directly in this node */
	std::string content() const;

	void ignore_child(std::string name) const { _taken.push_back(name); }

	NodePtr node_child(std::string name) const;
	NodePtr optional_node_child(std::string name) const;
	std::vector<NodePtr> node_children() const;
	std::vector<NodePtr> node_children(std::string name) const;

	/** Throw if there is any child which has not been asked for */
	void done() const;

	std::string namespace_uri() const;
	std::string namespace_prefix() const;
	bool is_text() const;

	xmlpp::Node* node() const { return _node; }

protected:
	xmlpp::Node* _node = nullptr;

private:
	mutable std::list<Glib::ustring> _taken;
};

class Document : public Node
{
public:
	Document();
	explicit Document(std::string root_name);
	Document(std::string root_name, boost::filesystem::path file);
	~Document();

	Document(Document const&) = delete;
	Document& operator=(Document const&) = delete;

	void read_file(boost::filesystem::path file);
	void read_string(std::string s, bool external = true);

	std::string root_name() const { return _root_name; }

private:
	void take_root_node();

	std::shared_ptr<xmlpp::DomParser> _parser;
	std::string _root_name;
};

xmlpp::Element* add_child(xmlpp::Element* parent, std::string const& name, std::string const& ns_prefix = "");
void add_text_child(xmlpp::Element* parent, std::string const& name, std::string const& text);

}

#endif
