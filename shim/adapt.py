import re,sys
src,out=sys.argv[1],sys.argv[2]
import os
os.makedirs(out+'/mods',exist_ok=True)
# ---- 2D
t=open(src+'/include/mods/Indexed_Triangulation_data_structure_2.h').read()
t=re.sub(r'friend class Triangulation_ds_edge_iterator_2<Tds, *(false|true)>;','',t)
t=re.sub(r'typedef Triangulation_ds_edge_iterator_2<Tds, *false> Halfedge_iterator;','typedef Triangulation_ds_edge_iterator_2<Tds> Halfedge_iterator;',t)
t=re.sub(r'(typedef\s+Face_iterator\s+Face_handle;)',r'''\1
        typedef Iterator_range<Prevent_deref<Vertex_iterator> > Vertex_handles;
        typedef Iterator_range<Prevent_deref<Face_iterator> > Face_handles;
        typedef Iterator_range<Edge_iterator> Edges;
        Face_handles face_handles() const { return make_prevent_deref_range(faces_begin(), faces_end()); }
        Vertex_handles vertex_handles() const { return make_prevent_deref_range(vertices_begin(), vertices_end()); }
        Edges edges() const { return Edges(edges_begin(), edges_end()); }
''',t,1)
t=re.sub(r'(template\s*<\s*typename\s+Vb2\s*>)',r'''class Face_data {
            unsigned char conflict_state;
        public:
            Face_data() : conflict_state(0) {}
            void clear() { conflict_state = 0; }
            void mark_in_conflict() { conflict_state = 1; }
            void mark_on_boundary() { conflict_state = 2; }
            void mark_processed() { conflict_state = 1; }
            bool is_clear() { return conflict_state == 0; }
            bool is_in_conflict() { return conflict_state == 1; }
            bool is_on_boundary() { return conflict_state == 2; }
            bool processed() { return conflict_state == 1; }
        };
        \1''',t,1)
t=re.sub(r'scanner\.scan_facet_vertex_index\(([^,()]*),\s*([^,()]*)\)',r'scanner.scan_facet_vertex_index(\1, 3, \2)',t)
open(out+'/mods/Indexed_Triangulation_data_structure_2.h','w').write(t)
t=open(src+'/include/mods/Indexed_Triangulation_data_structure_3.h').read()
t=re.sub(r'(typedef\s+Cell_iterator\s+Cell_handle;)',r'''\1
        typedef Iterator_range<Prevent_deref<Cell_iterator> > Cell_handles;
        typedef Iterator_range<Prevent_deref<Vertex_iterator> > Vertex_handles;
        typedef Iterator_range<Facet_iterator> Facets;
        typedef Iterator_range<Edge_iterator> Edges;
        bool is_small_hole(std::size_t) const { return false; } // CGAL 5.6 shortcut, not in the adapted sources
        template<class Cells_, class Facets_>
        Vertex_handle _insert_in_small_hole(const Cells_ &, const Facets_ &) { CGAL_error(); return Vertex_handle(); }
        Cell_handles cell_handles() const { return make_prevent_deref_range(cells_begin(), cells_end()); }
        Vertex_handles vertex_handles() const { return make_prevent_deref_range(vertices_begin(), vertices_end()); }
        Facets facets() const { return Facets(facets_begin(), facets_end()); }
        Edges edges() const { return Edges(edges_begin(), edges_end()); }
''',t,1)
open(out+'/mods/Indexed_Triangulation_data_structure_3.h','w').write(t)
