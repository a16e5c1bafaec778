from contracts import Profile

PRE = ""
DEFS = r"""
  (* label and index lookups agree with the registered spaces, in order *)
  predicate labels_ok (o: t_OrbitalSpaceInfo) =
    (forall c. cmem o.label_to_pos_ c -> 0 <= cget o.label_to_pos_ c < length o.space_info_ /\ (o.space_info_[cget o.label_to_pos_ c]).label_OrbitalSpace = c) /\
    (forall p. 0 <= p < length o.space_info_ -> cmem o.label_to_pos_ (o.space_info_[p]).label_OrbitalSpace /\ cget o.label_to_pos_ (o.space_info_[p]).label_OrbitalSpace = p)
  (* the string s names an index of space p *)
  predicate names (o: t_OrbitalSpaceInfo) (p: int) (s: str) = exists j. 0 <= j < length (o.space_info_[p]).indices_ /\ (o.space_info_[p]).indices_[j] = s
  predicate indices_ok (o: t_OrbitalSpaceInfo) =
    (forall s. cmem o.indices_to_pos_ s -> 0 <= cget o.indices_to_pos_ s < length o.space_info_ /\ names o (cget o.indices_to_pos_ s) s) /\
    (forall p j. 0 <= p < length o.space_info_ -> 0 <= j < length (o.space_info_[p]).indices_ ->
       cmem o.indices_to_pos_ (o.space_info_[p]).indices_[j] /\ cget o.indices_to_pos_ (o.space_info_[p]).indices_[j] = p)
  (* no name is listed twice in one space *)
  predicate distinct_names (v: seq str) = forall i j. 0 <= i < j < length v -> v[i] <> v[j]
  predicate elementary_ok (o: t_OrbitalSpaceInfo) = forall p j. 0 <= p < length o.space_info_ -> 0 <= j < length (o.space_info_[p]).elementary_spaces_ ->
       0 <= (o.space_info_[p]).elementary_spaces_[j] < length o.space_info_
  predicate inv (o: t_OrbitalSpaceInfo) = labels_ok o /\ indices_ok o /\ elementary_ok o /\
    (forall p. 0 <= p < length o.space_info_ -> distinct_names (o.space_info_[p]).indices_)
  (* every label and every index name belongs to at most one space *)
  let lemma at_most_one (o: t_OrbitalSpaceInfo) requires { inv o }
    ensures { forall p q. 0 <= p < length o.space_info_ -> 0 <= q < length o.space_info_ -> (o.space_info_[p]).label_OrbitalSpace = (o.space_info_[q]).label_OrbitalSpace -> p = q }
    ensures { forall p q s. 0 <= p < length o.space_info_ -> 0 <= q < length o.space_info_ -> names o p s -> names o q s -> p = q }
  = assert { forall p s. 0 <= p < length o.space_info_ -> names o p s -> cget o.indices_to_pos_ s = p }
  predicate fresh_label (o: t_OrbitalSpaceInfo) (c: int) = forall p. 0 <= p < length o.space_info_ -> (o.space_info_[p]).label_OrbitalSpace <> c
  predicate fresh_names (o: t_OrbitalSpaceInfo) (v: seq str) = distinct_names v /\
    forall p j. 0 <= p < length o.space_info_ -> 0 <= j < length v -> not names o p v[j]
  predicate known (o: t_OrbitalSpaceInfo) (c: int) (e: int) = e = c \/ exists p. 0 <= p < length o.space_info_ /\ (o.space_info_[p]).label_OrbitalSpace = e
  (* what add_space accepts *)
  predicate acceptable (o: t_OrbitalSpaceInfo) (c: int) (v: seq str) (el: seq int) =
    fresh_label o c /\ fresh_names o v /\ forall j. 0 <= j < length el -> known o c el[j]
"""
profile = P = Profile("C13", ["Base", "Str", "CMap"], types=["OrbitalSpace", "OrbitalSpaceInfo"], defs=DEFS)
P.fn("OrbitalSpace::OrbitalSpace(char, FieldType, SpaceType, vec<string>&, vec<int>&)", "c f s v el",
     ens=[("fields stored", "result.label_OrbitalSpace = c /\\ result.field_type_ = f /\\ result.space_type_ = s /\\ result.indices_ = v /\\ result.elementary_spaces_ = el")])
P.fn("OrbitalSpaceInfo::OrbitalSpaceInfo()", "", ens=[("empty registry", "inv result /\\ length result.space_info_ = 0")])
P.fn("OrbitalSpaceInfo::reset()", "this", ens=[("empty registry", "inv this /\\ length this.space_info_ = 0"), ("no label or index left", "(forall c. not cmem this.label_to_pos_ c) /\\ (forall s. not cmem this.indices_to_pos_ s)")])
P.fn("OrbitalSpaceInfo::num_spaces()", "this", ens=[("count", "result = length this.space_info_")])
P.fn("OrbitalSpaceInfo::label_to_space(char)", "this c", req=["inv this"],
     ens=[("position of the space with that label", "0 <= result < length this.space_info_ /\\ (this.space_info_[result]).label_OrbitalSpace = c")],
     raises="forall p. 0 <= p < length this.space_info_ -> (this.space_info_[p]).label_OrbitalSpace <> c")
P.fn("OrbitalSpaceInfo::label(int)", "this p", req=["0 <= p < length this.space_info_"], ens=[("label", "result = (this.space_info_[p]).label_OrbitalSpace")])
P.fn("OrbitalSpaceInfo::space_type(int)", "this p", req=["0 <= p < length this.space_info_"], ens=[("space type", "result = (this.space_info_[p]).space_type_")])
P.fn("OrbitalSpaceInfo::field_type(int)", "this p", req=["0 <= p < length this.space_info_"], ens=[("field type", "result = (this.space_info_[p]).field_type_")])
P.fn("OrbitalSpaceInfo::indices(int)", "this p", req=["0 <= p < length this.space_info_"], ens=[("indices", "result = (this.space_info_[p]).indices_")])
P.fn("OrbitalSpaceInfo::add_space(char, FieldType, SpaceType, vec<string>&, vec<char>&)", "this c f s v el", req=["inv this", "length this.space_info_ < 2147483647"],
     ens=[("registry stays consistent", "inv this"),
          ("only acceptable registrations succeed", "acceptable (old this) c v el"),
          ("one space appended", "length this.space_info_ = length (old this).space_info_ + 1"),
          ("existing spaces unchanged", "forall p. 0 <= p < length (old this).space_info_ -> this.space_info_[p] = (old this).space_info_[p]"),
          ("new space as given", "let q = this.space_info_[length (old this).space_info_] in q.label_OrbitalSpace = c /\\ q.field_type_ = f /\\ q.space_type_ = s /\\ q.indices_ = v"),
          ("elementary spaces by label", "let q = this.space_info_[length (old this).space_info_] in length q.elementary_spaces_ = length el /\\ forall j. 0 <= j < length el -> (this.space_info_[q.elementary_spaces_[j]]).label_OrbitalSpace = el[j]")],
     ghost={"exit": "assert { forall p. 0 <= p < pos -> this.space_info_[p] = (old this).space_info_[p] }; assert { labels_ok this }; assert { elementary_ok this };"
                    "assert { forall p s. 0 <= p < pos -> names (old this) p s -> names this p s }; assert { forall j. 0 <= j < length v -> names this pos v[j] };"
                    "assert { forall s. cmem this.indices_to_pos_ s -> 0 <= cget this.indices_to_pos_ s < length this.space_info_ };"
                    "assert { forall s. cmem this.indices_to_pos_ s -> names this (cget this.indices_to_pos_ s) s };"
                    "assert { indices_ok this };"},
     raises="this = old this /\\ not acceptable (old this) c v el",
     loops={1: [("names so far are new", "forall i. 0 <= i < it1 -> not cmem this.indices_to_pos_ v[i]"),
                ("names so far distinct", "forall i j. 0 <= i < j < it1 -> v[i] <> v[j]"),
                ("new map", "forall s. cmem new_indices_to_pos s <-> (cmem this.indices_to_pos_ s \\/ exists i. 0 <= i < it1 /\\ v[i] = s)"),
                ("new positions", "forall i. 0 <= i < it1 -> cget new_indices_to_pos v[i] = pos"),
                ("old positions", "forall s. cmem this.indices_to_pos_ s -> cget new_indices_to_pos s = cget this.indices_to_pos_ s")],
            2: [("so many", "length elementary_spaces_int = it2"),
                ("positions so far", "forall j. 0 <= j < it2 -> if el[j] = c then elementary_spaces_int[j] = pos else 0 <= elementary_spaces_int[j] < pos /\\ (this.space_info_[elementary_spaces_int[j]]).label_OrbitalSpace = el[j]")]})
