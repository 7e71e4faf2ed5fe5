// Shadow property trees: plain ordered (key, subtree) lists, and their comparison with the real ones
#pragma once
#include "flut/prop_node.hpp"
#include "common.hpp"

struct Shadow
{
	std::string value;
	std::vector< std::pair< std::string, Shadow > > kids;
	bool operator==( const Shadow& o ) const { return value == o.value && kids == o.kids; }
	bool operator!=( const Shadow& o ) const { return !( *this == o ); }
	Shadow* find( const std::string& k ) { for ( auto& e : kids ) if ( e.first == k ) return &e.second; return nullptr; }
	const Shadow* find( const std::string& k ) const { for ( auto& e : kids ) if ( e.first == k ) return &e.second; return nullptr; }
	Shadow& add( const std::string& k, const std::string& v = "" ) { kids.emplace_back( k, Shadow() ); kids.back().second.value = v; return kids.back().second; }
	Shadow& set( const std::string& k, const std::string& v ) { Shadow* s = find( k ); if ( !s ) return add( k, v ); *s = Shadow(); s->value = v; return *s; }
	size_t nodes() const { size_t n = 1; for ( auto& e : kids ) n += e.second.nodes(); return n; }
	size_t depth() const { size_t n = 0; for ( auto& e : kids ) n = std::max( n, e.second.depth() + 1 ); return n; }
};

inline std::string show( const Shadow& s )
{
	std::string r = vp::show( s.value, 60 );
	if ( !s.kids.empty() ) { r += "{"; for ( auto& e : s.kids ) { r += vp::show( e.first, 60 ) + ":" + show( e.second ) + " "; if ( r.size() > 1500 ) { r += "..."; break; } } r += "}"; }
	return r;
}

inline flut::prop_node to_flut( const Shadow& s )
{
	flut::prop_node pn; pn.set_value( std::string( s.value ) );
	for ( auto& e : s.kids ) pn.push_back( e.first, to_flut( e.second ) );
	return pn;
}

/// contents of a real tree, read through its public interface
inline Shadow from_flut( const flut::prop_node& pn )
{
	Shadow s; s.value = pn.get_value();
	for ( size_t i = 0; i < pn.size(); ++i ) s.kids.emplace_back( pn.get_key( i ), from_flut( pn.get_child( i ) ) );
	return s;
}

/// first difference between two shadow trees, empty if equal
inline std::string differs( const Shadow& a, const Shadow& b, const std::string& where = "root" )
{
	if ( a.value != b.value ) return where + ": value " + vp::show( a.value ) + " expected " + vp::show( b.value );
	for ( size_t i = 0; i < a.kids.size() && i < b.kids.size(); ++i )
	{
		if ( a.kids[ i ].first != b.kids[ i ].first ) return where + ": key " + vp::show( a.kids[ i ].first ) + " expected " + vp::show( b.kids[ i ].first );
		std::string d = differs( a.kids[ i ].second, b.kids[ i ].second, where + "/" + vp::show( a.kids[ i ].first, 30 ) );
		if ( !d.empty() ) return d;
	}
	if ( a.kids.size() != b.kids.size() ) return where + ": " + vp::num( a.kids.size() ) + " children, expected " + vp::num( b.kids.size() );
	return "";
}
