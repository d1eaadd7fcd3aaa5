"""Writes glue_<schema>.h: uniform access, by table and field number, to the typed API that joedbc generated for a schema."""
import sys, os, re

TYPES = ('string', 'int32', 'int64', 'reference', 'boolean', 'float32', 'float64', 'int8', 'int16', 'blob')

def parse(joedbi, joedbc):
    tables, nt, names = {}, 0, {}
    for l in open(joedbi):
        w = l.split()
        if not w or w[0].startswith('#'): continue
        byname = {t['name']: i for i, t in tables.items()}
        def fid(t, n): return next(i for i, f in tables[t]['fields'].items() if f['name'] == n)
        if w[0] == 'create_table':
            nt += 1; tables[nt] = {'name': w[1], 'fields': {}, 'nf': 0}
        elif w[0] == 'drop_table': del tables[byname[w[1]]]
        elif w[0] == 'rename_table': tables[byname[w[1]]]['name'] = w[2]
        elif w[0] == 'add_field':
            t = tables[byname[w[1]]]; t['nf'] += 1
            ref = byname.get(w[4], 0) if w[3] == 'references' else 0
            t['fields'][t['nf']] = {'name': w[2], 'type': 'reference' if w[3] == 'references' else w[3], 'ref': ref}
        elif w[0] == 'drop_field': t = byname[w[1]]; del tables[t]['fields'][fid(t, w[2])]
        elif w[0] == 'rename_field': t = byname[w[1]]; tables[t]['fields'][fid(t, w[2])]['name'] = w[3]
    ns, indexes = '', []
    byname = {t['name']: i for i, t in tables.items()}
    for l in open(joedbc):
        w = l.split()
        if not w or w[0].startswith('#'): continue
        if w[0] == 'namespace': ns = w[1]
        elif w[0] == 'set_single_row': tables[byname[w[1]]]['single'] = True
        elif w[0] in ('create_index', 'create_unique_index'):
            t = byname[w[2]]
            fs = [next(i for i, f in tables[t]['fields'].items() if f['name'] == n) for n in w[3].split(',')]
            indexes.append({'name': w[1], 'table': t, 'fields': fs, 'unique': w[0] == 'create_unique_index'})
    return ns, tables, indexes

def write(base, joedbi, joedbc, out):
    ns, tables, indexes = parse(joedbi, joedbc)
    o = []
    p = o.append
    G = 'Glue_' + base
    p('#pragma once'); p('#include "glue.h"')
    for h in ('writable', 'readonly', 'Memory_Database', 'Multiplexer', 'Readable', 'Readonly_Client', 'Readonly_Database'): p('#include "%s/%s.h"' % (base, h))
    p('namespace vf {'); p('struct %s {' % G)
    p(' using Db = %s::Database; using Wdb = %s::Writable_Database; using Memory_Database = %s::Memory_Database;' % (ns, ns, ns))
    p(' using File_Database = %s::File_Database; using Readonly_Database = %s::Readonly_Database; using Client = %s::Client;' % (ns, ns, ns))
    p(' using Readable = %s::Readable; using Multiplexer = %s::Multiplexer; using Readonly_Client = %s::Readonly_Client;' % (ns, ns, ns))
    p(' using Client_Lock = %s::Client_Lock;' % ns)
    p(' static constexpr const char *name = "%s";' % base)
    p(' static std::string schema() {return std::string(%s::detail::schema_string, %s::detail::schema_string_size);}' % (ns, ns))
    p(' static const std::vector<GIndex> &indexes() {static const std::vector<GIndex> v = {')
    for i in indexes:
        p('  {"%s", %d, {%s}, %s},' % (i['name'], i['table'], ','.join(map(str, i['fields'])), 'true' if i['unique'] else 'false'))
    p(' }; return v;}')
    def switch(sig, body, default, single=False):
        p(' static %s {switch (t) {' % sig)
        for t, d in tables.items():
            if d.get('single') and not single: continue
            p('  case %d: {%s} break;' % (t, body(t, d)))
        p(' } %s}' % default)
    ID = lambda t: '%s::id_of_%s' % (ns, tables[t]['name'])
    bad = 'throw std::logic_error("bad table");'
    switch('int64_t create(Wdb &db, uint16_t t)', lambda t, d: 'return db.new_%s().get_id();' % d['name'], bad)
    switch('void insert(Wdb &db, uint16_t t, int64_t r)', lambda t, d: 'db.insert_%s(%s(r)); return;' % (d['name'], ID(t)), bad)
    switch('int64_t create_vector(Wdb &db, uint16_t t, size_t n)', lambda t, d: 'return db.new_vector_of_%s(n).get_id();' % d['name'], bad)
    switch('void erase(Wdb &db, uint16_t t, int64_t r)', lambda t, d: 'db.delete_%s(%s(r)); return;' % (d['name'], ID(t)), bad)
    switch('void erase_vector(Wdb &db, uint16_t t, int64_t r, size_t n)', lambda t, d: 'db.delete_vector_of_%s(%s(r), n); return;' % (d['name'], ID(t)), bad)
    switch('void clear(Wdb &db, uint16_t t)', lambda t, d: 'db.clear_%s_table(); return;' % d['name'], bad)
    def arg(t, f, e):
        d = tables[t]['fields'][f]
        if d['type'] == 'reference': return '%s(Dec<Record_Id>::get(%s))' % (ID(d['ref']) if d['ref'] in tables else 'Record_Id', e)
        return 'Dec<%s>::get(%s)' % ({'string': 'std::string', 'int32': 'int32_t', 'int64': 'int64_t', 'boolean': 'bool', 'float32': 'float',
                                      'float64': 'double', 'int8': 'int8_t', 'int16': 'int16_t', 'blob': 'Blob'}[d['type']], e)
    switch('int64_t create_full(Wdb &db, uint16_t t, const std::vector<std::string> &v)',
           lambda t, d: 'return db.new_%s(%s).get_id();' % (d['name'], ', '.join(arg(t, f, 'v[%d]' % i) for i, f in enumerate(d['fields']))), bad)
    def fswitch(t, d, body):
        return 'switch (f) {%s}' % ' '.join('case %d: %s break;' % (f, body(t, f, e)) for f, e in d['fields'].items())
    switch('void set(Wdb &db, uint16_t t, int64_t r, uint16_t f, const std::string &v)',
           lambda t, d: fswitch(t, d, lambda t, f, e: 'db.set_%s(%s(r), %s); return;' % (e['name'], ID(t), arg(t, f, 'v'))), bad, True)
    switch('void set_vector(Wdb &db, uint16_t t, int64_t r, uint16_t f, const std::vector<std::string> &v)',
           lambda t, d: fswitch(t, d, lambda t, f, e: 'db.update_vector_of_%s(%s(r), v.size(), [&](auto s) {span_write(s, v);}); return;' % (e['name'], ID(t))), bad)
    switch('std::string get(const Db &db, uint16_t t, int64_t r, uint16_t f)',
           lambda t, d: fswitch(t, d, lambda t, f, e: 'return to_bytes(db.get_%s(%s(r)));' % (e['name'], ID(t))), bad, True)
    switch('void enumerate(const Db &db, uint16_t t, const std::vector<int64_t> &expected)',
           lambda t, d: 'check_table(db, db.get_%s_table(), expected, "%s", [&](auto c) {return db.sorted_%s(c);}, db.null_%s()); return;' % (d['name'], d['name'], d['name'], d['name']), bad if not any(d.get('single') for d in tables.values()) else '')
    p(' static bool single(uint16_t t) {return %s;}' % (' || '.join('t == %d' % t for t, d in tables.items() if d.get('single')) or 'false'))
    p(' static Index_Content index_content(Db &db, size_t i) {switch (i) {')
    for k, i in enumerate(indexes): p('  case %d: return read_index(db.get_index_of_%s());' % (k, i['name']))
    p(' } return {};}')
    p(' static std::vector<int64_t> find(const Db &db, size_t i, const std::vector<std::string> &k) {switch (i) {')
    for k, i in enumerate(indexes):
        p('  case %d: return found(db.find_%s(%s));' % (k, i['name'], ', '.join(arg(i['table'], f, 'k[%d]' % j) for j, f in enumerate(i['fields']))))
    p(' } return {};}')
    for w in ('next', 'previous'):
        p(' static int64_t index_%s(Db &db, size_t i, int64_t r) {switch (i) {' % w)
        for k, i in enumerate(indexes):
            if i['unique']: p('  case %d: return db.%s_%s(%s(r)).get_id();' % (k, w, i['name'], ID(i['table'])))
        p(' } return -2;}')
    p('};'); p('}')
    open(out, 'w').write('\n'.join(o) + '\n')

if __name__ == '__main__':
    write(sys.argv[1], *sys.argv[2:5])
