/* See libcxml/cxml.h */

#include "libcxml/cxml.h"
#include <fstream>
#include <iterator>

using std::make_shared;
using std::string;
using std::vector;
using boost::optional;
using namespace cxml;

string
Node::name() const
{
	if (!_node) {
		throw Error("No node to read name from");
	}
	return _node->get_name();
}

NodePtr
Node::node_child(string name) const
{
	auto const n = node_children(name);
	if (n.size() > 1) {
		throw Error("duplicate XML tag with name " + name);
	} else if (n.empty()) {
		throw Error("missing XML tag " + name + " in " + _node->get_name());
	}
	return n.front();
}

NodePtr
Node::optional_node_child(string name) const
{
	auto const n = node_children(name);
	if (n.size() > 1) {
		throw Error("duplicate XML tag with name " + name);
	}
	return n.empty() ? NodePtr() : n.front();
}

vector<NodePtr>
Node::node_children() const
{
	if (!_node) {
		throw Error("No node to read children from");
	}
	vector<NodePtr> n;
	for (auto i: _node->get_children()) {
		n.push_back(make_shared<Node>(i));
		_taken.push_back(i->get_name());
	}
	return n;
}

vector<NodePtr>
Node::node_children(string name) const
{
	if (!_node) {
		throw Error("No node to read children from");
	}
	vector<NodePtr> n;
	for (auto i: _node->get_children(name)) {
		n.push_back(make_shared<Node>(i));
	}
	_taken.push_back(name);
	return n;
}

string
Node::string_child(string name) const
{
	return node_child(name)->content();
}

optional<string>
Node::optional_string_child(string name) const
{
	auto const n = optional_node_child(name);
	return n ? n->content() : optional<string>();
}

static bool
to_bool(string const& s)
{
	return s == "1" || s == "yes" || s == "True" || s == "true";
}

bool
Node::bool_child(string name) const
{
	return to_bool(string_child(name));
}

optional<bool>
Node::optional_bool_child(string name) const
{
	auto const s = optional_string_child(name);
	return s ? to_bool(*s) : optional<bool>();
}

string
Node::string_attribute(string name) const
{
	auto const s = optional_string_attribute(name);
	if (!s) {
		throw Error("missing attribute " + name);
	}
	return *s;
}

optional<string>
Node::optional_string_attribute(string name) const
{
	auto const e = dynamic_cast<xmlpp::Element const *>(_node);
	if (!e) {
		throw Error("missing attribute");
	}
	auto const a = e->get_attribute(name);
	return a ? string(a->get_value()) : optional<string>();
}

bool
Node::bool_attribute(string name) const
{
	return to_bool(string_attribute(name));
}

optional<bool>
Node::optional_bool_attribute(string name) const
{
	auto const s = optional_string_attribute(name);
	return s ? to_bool(*s) : optional<bool>();
}

void
Node::done() const
{
	for (auto i: _node->get_children()) {
		if (dynamic_cast<xmlpp::Element*>(i) && std::find(_taken.begin(), _taken.end(), i->get_name()) == _taken.end()) {
			throw Error("unexpected XML node " + i->get_name());
		}
	}
}

string
Node::content() const
{
	string c;
	for (auto i: _node->get_children()) {
		auto const v = dynamic_cast<xmlpp::ContentNode const *>(i);
		if (v && dynamic_cast<xmlpp::TextNode const *>(v)) {
			c += v->get_content();
		}
	}
	return c;
}

string
Node::namespace_uri() const
{
	return _node->get_namespace_uri();
}

string
Node::namespace_prefix() const
{
	return _node->get_namespace_prefix();
}

bool
Node::is_text() const
{
	return dynamic_cast<xmlpp::TextNode const *>(_node);
}

Document::Document()
	: _parser(make_shared<xmlpp::DomParser>())
{

}

Document::Document(string root_name)
	: _parser(make_shared<xmlpp::DomParser>())
	, _root_name(root_name)
{

}

Document::Document(string root_name, boost::filesystem::path file)
	: _parser(make_shared<xmlpp::DomParser>())
	, _root_name(root_name)
{
	read_file(file);
}

Document::~Document()
{

}

void
Document::read_file(boost::filesystem::path file)
{
	if (!boost::filesystem::exists(file)) {
		throw Error("XML file " + file.string() + " does not exist");
	}
	std::ifstream f(file.string().c_str());
	string const s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
	read_string(s);
}

void
Document::read_string(string s, bool)
{
	try {
		_parser->parse_memory(s);
	} catch (std::exception& e) {
		throw Error(string("XML error: ") + e.what());
	}
	take_root_node();
}

void
Document::take_root_node()
{
	if (!*_parser) {
		throw Error("could not parse XML");
	}
	_node = _parser->get_document()->get_root_node();
	if (!_node) {
		throw Error("XML document has no root node");
	}
	if (!_root_name.empty() && _node->get_name() != _root_name) {
		throw Error("unrecognised root node " + _node->get_name() + " (expecting " + _root_name + ")");
	} else if (_root_name.empty()) {
		_root_name = _node->get_name();
	}
}

xmlpp::Element*
cxml::add_child(xmlpp::Element* parent, string const& name, string const& ns_prefix)
{
	return parent->add_child(name, ns_prefix);
}

void
cxml::add_text_child(xmlpp::Element* parent, string const& name, string const& text)
{
	parent->add_child(name)->add_child_text(text);
}
