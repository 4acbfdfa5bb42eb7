From 308ec6ffee5825cee3452a143ae489e8a783c232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:41 +0000
Subject: [PATCH 01/17] fix: keep elements outside the operand when an interval
 set update fails

subtract erased whole segments and re-inserted their residuals; add_front and
add_rear shrank a segment before inserting the part cut off. If the insertion
threw, elements outside of the operand were lost. Shrink in place where no
insertion is needed and restore the segment if splitting it fails.
---
 include/boost/icl/interval_base_set.hpp | 50 +++++++++++++++++++------
 1 file changed, 38 insertions(+), 12 deletions(-)

diff --git a/include/boost/icl/interval_base_set.hpp b/include/boost/icl/interval_base_set.hpp
index d693bd4..5f431f5 100644
--- a/include/boost/icl/interval_base_set.hpp
+++ b/include/boost/icl/interval_base_set.hpp
@@ -20,6 +20,7 @@ Copyright (c) 1999-2006: Cortex Software GmbH, Kantstrasse 57, Berlin
 #endif
 
 #include <limits>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/next_prior.hpp>
 #include <boost/icl/associative_interval_container.hpp>
 #include <boost/icl/type_traits/interval_type_default.hpp>
@@ -395,6 +396,27 @@ protected:
     void add_segment(const interval_type& inter_val, iterator& it_);
     void add_rear(const interval_type& inter_val, iterator& it_);
 
+    /** Shrinks segment \c *it_ to \c kept and inserts its other part \c resid
+        close to \c hint_. If that fails \c *it_ is left unchanged. */
+    iterator split_off(iterator it_, const interval_type& kept,
+                       const interval_type& resid, iterator hint_)
+    {
+        const interval_type whole = *it_;
+        iterator inserted_;
+        const_cast<interval_type&>(*it_) = kept;
+        BOOST_TRY
+        {
+            inserted_ = this->_set.insert(hint_, resid);
+        }
+        BOOST_CATCH(...)
+        {
+            const_cast<interval_type&>(*it_) = whole;
+            BOOST_RETHROW
+        }
+        BOOST_CATCH_END
+        return inserted_;
+    }
+
 protected:
     sub_type* that() { return static_cast<sub_type*>(this); }
     const sub_type* that()const { return static_cast<const sub_type*>(this); }
@@ -419,9 +441,8 @@ inline void interval_base_set<SubType,DomainT,Compare,Interval,Alloc>
     {   //            [------------ . . .
         // [left_resid---first_ --- . . .
         iterator prior_ = cyclic_prior(*this, first_);
-        const_cast<interval_type&>(*first_) = left_subtract(*first_, left_resid);
         //NOTE: Only splitting
-        this->_set.insert(prior_, left_resid);
+        split_off(first_, left_subtract(*first_, left_resid), left_resid, prior_);
     }
 
     //POST:
@@ -485,8 +506,7 @@ inline void interval_base_set<SubType,DomainT,Compare,Interval,Alloc>
         {
             // [--------------)
             //      [-- it_ --right_resid)
-            const_cast<interval_type&>(*it_) = right_subtract(*it_, right_resid);
-            it_ = this->_set.insert(it_, right_resid);
+            it_ = split_off(it_, right_subtract(*it_, right_resid), right_resid, it_);
         }
     }
 }
@@ -553,17 +573,23 @@ inline SubType& interval_base_set<SubType,DomainT,Compare,Interval,Alloc>
     iterator last_  = prior(end_);
 
     interval_type left_resid = right_subtract(*first_, minuend);
-    interval_type right_resid;
-    if(first_ != end_)
-        right_resid = left_subtract(*last_ , minuend);
+    interval_type right_resid = left_subtract(*last_ , minuend);
+    const bool has_left  = !icl::is_empty(left_resid);
+    const bool has_right = !icl::is_empty(right_resid);
 
-    this->_set.erase(first_, end_);
+    if(first_ == last_ && has_left && has_right)
+        split_off(first_, left_resid, right_resid, end_);
+    else
+    {   //            [-------- minuend ---------)
+        // [left_resid   fst)   . . . .    [lst  right_resid)
+        if(has_left)
+            const_cast<interval_type&>(*first_++) = left_resid;
 
-    if(!icl::is_empty(left_resid))
-        this->_set.insert(left_resid);
+        if(has_right)
+            const_cast<interval_type&>(*last_) = right_resid;
 
-    if(!icl::is_empty(right_resid))
-        this->_set.insert(right_resid);
+        this->_set.erase(first_, has_right ? last_ : end_);
+    }
 
     return *that();
 }
-- 
2.43.0


From a3223b717655963ad368babf8c1d5348e5b97129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:41 +0000
Subject: [PATCH 02/17] fix: keep elements outside the operand when an interval
 map update fails

Where an update splits a segment it shrank the segment before inserting the
part cut off. If allocating or copying the value threw, the elements of that
part, which lie outside of the operand, were lost. Restore the segment then.
---
 include/boost/icl/interval_base_map.hpp | 48 +++++++++++++++++--------
 1 file changed, 34 insertions(+), 14 deletions(-)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index f464a6a..b5bbed3 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -10,6 +10,7 @@ Copyright (c) 1999-2006: Cortex Software GmbH, Kantstrasse 57, Berlin
 #define BOOST_ICL_INTERVAL_BASE_MAP_HPP_JOFA_990223
 
 #include <limits>
+#include <boost/core/no_exceptions_support.hpp>
 #include <boost/mpl/and.hpp>
 #include <boost/mpl/or.hpp>
 #include <boost/mpl/not.hpp>
@@ -595,6 +596,27 @@ protected:
     }
 
 
+    /** Shrinks segment \c *it_ to \c kept and inserts its other part \c resid with
+        the same value close to \c hint_. If that fails \c *it_ is left unchanged. */
+    iterator split_off(iterator it_, const interval_type& kept,
+                       const interval_type& resid, iterator hint_)
+    {
+        const interval_type whole = (*it_).first;
+        iterator inserted_;
+        const_cast<interval_type&>((*it_).first) = kept;
+        BOOST_TRY
+        {
+            inserted_ = this->_map.insert(hint_, value_type(resid, (*it_).second));
+        }
+        BOOST_CATCH(...)
+        {
+            const_cast<interval_type&>((*it_).first) = whole;
+            BOOST_RETHROW
+        }
+        BOOST_CATCH_END
+        return inserted_;
+    }
+
 protected:
     sub_type* that() { return static_cast<sub_type*>(this); }
     const sub_type* that()const { return static_cast<const sub_type*>(this); }
@@ -827,10 +849,8 @@ inline void interval_base_map<SubType,DomainT,CodomainT,Traits,Compare,Combine,S
     {   //            [------------ . . .
         // [left_resid---first_ --- . . .
         iterator prior_ = cyclic_prior(*this, first_);
-        const_cast<interval_type&>((*first_).first) 
-            = left_subtract((*first_).first, left_resid);
         //NOTE: Only splitting
-        this->_map.insert(prior_, segment_type(left_resid, (*first_).second));
+        split_off(first_, left_subtract((*first_).first, left_resid), left_resid, prior_);
     }
     //POST:
     // [----- inter_val ---- . . .
@@ -915,12 +935,11 @@ inline void interval_base_map<SubType,DomainT,CodomainT,Traits,Compare,Combine,S
         {
             // [--------------)
             //      [-- it_ --right_resid)
-            const_cast<interval_type&>((*it_).first) = right_subtract((*it_).first, right_resid);
-
             //NOTE: This is NOT an insertion that has to take care for correct application of
             // the Combiner functor. It only reestablished that state after splitting the
             // 'it_' interval value pair. Using _map_insert<Combiner> does not work here.
-            iterator insertion_ = this->_map.insert(it_, value_type(right_resid, (*it_).second));
+            iterator insertion_
+                = split_off(it_, right_subtract((*it_).first, right_resid), right_resid, it_);
             that()->handle_reinserted(insertion_);
 
             Combiner()((*it_).second, co_val);
@@ -1021,8 +1040,7 @@ inline void interval_base_map<SubType,DomainT,CodomainT,Traits,Compare,Combine,S
     if(!icl::is_empty(left_resid)) //                     [--- inter_val ---)
     {                              //[prior_) [left_resid)[--- it_ . . .
         iterator prior_ = cyclic_prior(*this, it_); 
-        const_cast<interval_type&>((*it_).first) = left_subtract((*it_).first, left_resid);
-        this->_map.insert(prior_, value_type(left_resid, (*it_).second));
+        split_off(it_, left_subtract((*it_).first, left_resid), left_resid, prior_);
         // The segemnt *it_ is split at inter_val.first(), so as an invariant
         // segment *it_ is always "under" inter_val and a left_resid is empty.
     }
@@ -1055,8 +1073,8 @@ inline void interval_base_map<SubType,DomainT,CodomainT,Traits,Compare,Combine,S
     }
     else
     {
-        const_cast<interval_type&>((*it_).first) = right_subtract((*it_).first, right_resid);
-        iterator next_ = this->_map.insert(it_, value_type(right_resid, (*it_).second));
+        iterator next_
+            = split_off(it_, right_subtract((*it_).first, right_resid), right_resid, it_);
         Combiner()((*it_).second, co_val);
         that()->template handle_succeeded_combined<Combiner>(it_, next_);
     }
@@ -1244,9 +1262,10 @@ inline SubType& interval_base_map<SubType,DomainT,CodomainT,Traits,Compare,Combi
             interval_type left_resid = right_subtract((*first_).first, inter_val);
             if(!icl::is_empty(left_resid)) //            [----inter_val----)
             {                              // [left_resid)..first_==last_......
-                const_cast<interval_type&>((*first_).first) = left_resid;
                 if(!icl::is_empty(right_resid))
-                    this->_map.insert(first_, value_type(right_resid, co_val));
+                    split_off(first_, left_resid, right_resid, first_);
+                else
+                    const_cast<interval_type&>((*first_).first) = left_resid;
             }
             else if(!icl::is_empty(right_resid))
                 const_cast<interval_type&>((*first_).first) = right_resid;
@@ -1296,9 +1315,10 @@ inline SubType& interval_base_map<SubType,DomainT,CodomainT,Traits,Compare,Combi
     if(first_ == last_ )
         if(!icl::is_empty(left_resid))
         {
-            const_cast<interval_type&>((*first_).first) = left_resid;
             if(!icl::is_empty(right_resid))
-                this->_map.insert(first_, value_type(right_resid, (*first_).second));
+                split_off(first_, left_resid, right_resid, first_);
+            else
+                const_cast<interval_type&>((*first_).first) = left_resid;
         }
         else if(!icl::is_empty(right_resid))
             const_cast<interval_type&>((*first_).first) = left_subtract((*first_).first, minuend);
-- 
2.43.0


From f4c5998404ea443b4d81680c3dc9fb617e26a06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:41 +0000
Subject: [PATCH 03/17] fix: do not leave an identity element behind when a
 hinted add fails

The hinted forms of add inserted an identity element and combined the value
into it afterwards. If combining threw, the map was left with an identity
element that neither was there before nor is a result of the addition.
---
 include/boost/icl/interval_base_map.hpp | 11 +++--------
 include/boost/icl/map.hpp               |  8 ++++++--
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index b5bbed3..53fa004 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -568,16 +568,11 @@ protected:
         // Never try to insert an identity element into an identity element absorber here:
         BOOST_ASSERT((!(on_absorbtion<type,Combiner,Traits::absorbs_identities>::is_absorbable(co_val))));
 
+        const std::size_t old_size = this->_map.size();
         iterator inserted_ 
-            = this->_map.insert(prior_, value_type(inter_val, Combiner::identity_element()));
+            = this->_map.insert(prior_, value_type(inter_val, version<Combiner>()(co_val)));
 
-        if((*inserted_).first == inter_val && (*inserted_).second == Combiner::identity_element())
-        {
-            Combiner()((*inserted_).second, co_val);
-            return std::pair<iterator,bool>(inserted_, true);
-        }
-        else
-            return std::pair<iterator,bool>(inserted_, false);
+        return std::pair<iterator,bool>(inserted_, this->_map.size() != old_size);
     }
 
     std::pair<iterator, bool>
diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index 3877745..9f1e5aa 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -616,10 +616,14 @@ typename map<DomainT,CodomainT,Traits,Compare,Combine,Section,Alloc>::iterator
     if(on_absorbtion_::is_absorbable(co_val))
         return end();
 
+    const size_type old_size = base_type::size();
     iterator inserted_
         = base_type::insert(prior_,
-                            value_type(addend.first, Combiner::identity_element()));
-    Combiner()((*inserted_).second, addend.second);
+                            value_type(addend.first, version<Combiner>()(co_val)));
+    if(base_type::size() != old_size)
+        return inserted_;
+
+    Combiner()((*inserted_).second, co_val);
 
     if(on_absorbtion_::is_absorbable((*inserted_).second))
     {
-- 
2.43.0


From 8762f99a93ea091f5a2027d721df216dbe25ac15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:41 +0000
Subject: [PATCH 04/17] fix: let add_if skip elements the predicate rejects

add_if never advanced past an element rejected by the predicate, assign_if
passed its arguments in the wrong order and erase_if called a non existing
overload of erase for element containers.
---
 include/boost/icl/concept/element_associator.hpp | 6 +++---
 include/boost/icl/concept/interval_map.hpp       | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 4d37e25..130d543 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -472,7 +472,7 @@ erase_if(const Predicate& pred, Type& object)
     typename Type::iterator it_ = object.begin();
     while(it_ != object.end())
         if(pred(*it_))
-            icl::erase(object, it_++);
+            object.erase(it_++);
         else ++it_;
     return object;
 }
@@ -485,7 +485,7 @@ add_if(const Predicate& pred, Type& object, const Type& src)
     while(it_ != src.end())
         if(pred(*it_))
             icl::add(object, *it_++);
-
+        else ++it_;
     return object;
 }
 
@@ -494,7 +494,7 @@ inline typename enable_if<is_associative_element_container<Type>, Type>::type&
 assign_if(const Predicate& pred, Type& object, const Type& src)
 {
     icl::clear(object);
-    return add_if(object, src, pred);
+    return add_if(pred, object, src);
 }
 
 
diff --git a/include/boost/icl/concept/interval_map.hpp b/include/boost/icl/concept/interval_map.hpp
index 58298d8..b8b9974 100644
--- a/include/boost/icl/concept/interval_map.hpp
+++ b/include/boost/icl/concept/interval_map.hpp
@@ -621,7 +621,7 @@ add_if(const Predicate& pred, MapT& object, const MapT& src)
     while(it_ != src.end())
         if(pred(*it_)) 
             icl::add(object, *it_++); 
-    
+        else ++it_;
     return object;
 }
 
@@ -630,7 +630,7 @@ inline typename enable_if<is_interval_map<MapT>, MapT>::type&
 assign_if(const Predicate& pred, MapT& object, const MapT& src)
 {
     icl::clear(object);
-    return add_if(object, src, pred);
+    return add_if(pred, object, src);
 }
 
 
-- 
2.43.0


From 7fbd57b5a529c4a91d5cef3c0e92f3044b54bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:41 +0000
Subject: [PATCH 05/17] fix: return the iterator from map::insert for ranges

---
 include/boost/icl/map.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index 9f1e5aa..0b11e56 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -342,6 +342,7 @@ public:
         iterator prior = end(), it = first;
         while(it != last)
             prior = this->insert(prior, *it++);
+        return prior;
     }
 
     /** With <tt>key_value_pair = (k,v)</tt> set value \c v for key \c k */
-- 
2.43.0


From 91fd097826fa530bfd63afddefaa462476b0a974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:41 +0000
Subject: [PATCH 06/17] fix: flipping an empty interval leaves a container
 unchanged

flip searched the container for the empty interval, which violates the
precondition of the comparison (an assertion failure in debug mode).
---
 include/boost/icl/concept/interval_set.hpp | 3 +++
 include/boost/icl/interval_base_map.hpp    | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/boost/icl/concept/interval_set.hpp b/include/boost/icl/concept/interval_set.hpp
index 63aad41..bea81f5 100644
--- a/include/boost/icl/concept/interval_set.hpp
+++ b/include/boost/icl/concept/interval_set.hpp
@@ -231,6 +231,9 @@ flip(Type& object, const typename Type::segment_type& segment)
     // That which is common shall be subtracted
     // That which is not shall be added
     // So x has to be 'complementary added' or flipped
+    if(icl::is_empty(segment))
+        return object;
+
     interval_type span = segment;
     std::pair<const_iterator, const_iterator> exterior 
         = object.equal_range(span);
diff --git a/include/boost/icl/interval_base_map.hpp b/include/boost/icl/interval_base_map.hpp
index 53fa004..3776f79 100644
--- a/include/boost/icl/interval_base_map.hpp
+++ b/include/boost/icl/interval_base_map.hpp
@@ -772,6 +772,9 @@ private:
             // That which is not shall be added
             // So interval_value_pair has to be 'complementary added' or flipped
             interval_type span = interval_value_pair.first;
+            if(icl::is_empty(span))
+                return;
+
             std::pair<const_iterator, const_iterator> exterior 
                 = object.equal_range(span);
 
-- 
2.43.0


From c18497a289074d6e41f1c009efc944db3a69f8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:11 +0000
Subject: [PATCH 07/17] fix: measure and iterate intervals of a descending
 domain in its order

cardinality, length, distance and element iteration subtracted and advanced
bounds in ascending direction only, whatever the domain order.
---
 include/boost/icl/concept/interval.hpp        | 57 +++++++++++++++----
 include/boost/icl/detail/element_iterator.hpp | 30 ++++++++--
 2 files changed, 72 insertions(+), 15 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index fab7dd9..6cb7681 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -19,6 +19,7 @@ Copyright (c) 2010-2010: Joachim Faulhaber
 #include <boost/icl/type_traits/identity_element.hpp>
 #include <boost/icl/type_traits/infinity.hpp>
 #include <boost/icl/type_traits/succ_pred.hpp>
+#include <boost/icl/type_traits/is_increasing.hpp>
 #include <boost/icl/type_traits/is_numeric.hpp>
 #include <boost/icl/type_traits/is_discrete.hpp>
 #include <boost/icl/type_traits/is_continuous.hpp>
@@ -991,6 +992,17 @@ touches(const Type& left, const Type& right)
 //==============================================================================
 //= Size
 //==============================================================================
+// Is the domain order of the interval type ascending? Differences of bounds are
+// taken in the direction of the domain order.
+template<class Type>
+struct is_increasing_interval
+{
+    typedef is_increasing_interval<Type> type;
+    BOOST_STATIC_CONSTANT(bool, value =
+        (is_increasing< typename interval_traits<Type>::domain_type
+                      , typename interval_traits<Type>::domain_compare >::value));
+};
+
 //- cardinality ----------------------------------------------------------------
 
 template<class Type>
@@ -1015,7 +1027,10 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : static_cast<SizeT>(
+                                       is_increasing_interval<Type>::value
+                                           ? last_next(object) - first(object)
+                                           : first(object) - last_next(object));
 }
 
 template<class Type>
@@ -1037,7 +1052,10 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : static_cast<SizeT>(
+                                       is_increasing_interval<Type>::value
+                                           ? last_next(object) - first(object)
+                                           : first(object) - last_next(object));
 }
 
 template<class Type>
@@ -1047,7 +1065,10 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(last_next(object) - first(object));
+                                 : static_cast<SizeT>(
+                                       is_increasing_interval<Type>::value
+                                           ? last_next(object) - first(object)
+                                           : first(object) - last_next(object));
 }
 
 
@@ -1069,7 +1090,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : upper(object) - lower(object);
+                                 : is_increasing_interval<Type>::value
+                                       ? upper(object) - lower(object)
+                                       : lower(object) - upper(object);
 }
 
 template<class Type>
@@ -1079,7 +1102,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : last_next(object) - first(object);
+                                 : is_increasing_interval<Type>::value
+                                       ? last_next(object) - first(object)
+                                       : first(object) - last_next(object);
 }
 
 template<class Type>
@@ -1089,7 +1114,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : upper(object) - lower(object);
+                                 : is_increasing_interval<Type>::value
+                                       ? upper(object) - lower(object)
+                                       : lower(object) - upper(object);
 }
 
 template<class Type>
@@ -1099,7 +1126,9 @@ length(const Type& object)
 {
     typedef typename difference_type_of<interval_traits<Type> >::type DiffT;
     return icl::is_empty(object) ? identity_element<DiffT>::value()
-                                 : last_next(object) - first(object);
+                                 : is_increasing_interval<Type>::value
+                                       ? last_next(object) - first(object)
+                                       : first(object) - last_next(object);
 }
 
 //- iterative_size -------------------------------------------------------------
@@ -1418,9 +1447,13 @@ distance(const Type& x1, const Type& x2)
     if(icl::is_empty(x1) || icl::is_empty(x2))
         return icl::identity_element<difference_type>::value();
     else if(domain_less<Type>(last(x1), first(x2)))
-        return static_cast<difference_type>(icl::pred(first(x2) - last(x1)));
+        return static_cast<difference_type>(icl::pred(
+            is_increasing_interval<Type>::value ? first(x2) - last(x1)
+                                                : last(x1) - first(x2)));
     else if(domain_less<Type>(last(x2), first(x1)))
-        return static_cast<difference_type>(icl::pred(first(x1) - last(x2)));
+        return static_cast<difference_type>(icl::pred(
+            is_increasing_interval<Type>::value ? first(x1) - last(x2)
+                                                : last(x2) - first(x1)));
     else
         return icl::identity_element<difference_type>::value();
 }
@@ -1439,9 +1472,11 @@ distance(const Type& x1, const Type& x2)
     if(icl::is_empty(x1) || icl::is_empty(x2))
         return icl::identity_element<DiffT>::value();
     else if(domain_less<Type>(upper(x1), lower(x2)))
-        return lower(x2) - upper(x1);
+        return is_increasing_interval<Type>::value ? lower(x2) - upper(x1)
+                                                   : upper(x1) - lower(x2);
     else if(domain_less<Type>(upper(x2), lower(x1)))
-        return lower(x1) - upper(x2);
+        return is_increasing_interval<Type>::value ? lower(x1) - upper(x2)
+                                                   : upper(x2) - lower(x1);
     else
         return icl::identity_element<DiffT>::value();
 }
diff --git a/include/boost/icl/detail/element_iterator.hpp b/include/boost/icl/detail/element_iterator.hpp
index b3a2db9..9cef9c8 100644
--- a/include/boost/icl/detail/element_iterator.hpp
+++ b/include/boost/icl/detail/element_iterator.hpp
@@ -11,6 +11,7 @@ Copyright (c) 2009-2009: Joachim Faulhaber
 #include <boost/mpl/if.hpp>
 #include <boost/iterator/iterator_facade.hpp>
 #include <boost/icl/type_traits/succ_pred.hpp>
+#include <boost/icl/type_traits/is_increasing.hpp>
 #include <boost/icl/detail/mapped_reference.hpp>
 
 namespace boost{namespace icl
@@ -125,6 +126,25 @@ struct elemental;
 #endif //ICL_USE_INTERVAL_TEMPLATE_TEMPLATE
 
 
+//------------------------------------------------------------------------------
+//- struct bound_shift: Moves a bound within an interval in the domain's order
+//------------------------------------------------------------------------------
+template<class IntervalT>
+struct bound_shift
+{
+    typedef typename interval_traits<IntervalT>::domain_type    domain_type;
+    typedef typename interval_traits<IntervalT>::domain_compare domain_compare;
+    typedef typename difference_type_of<interval_traits<IntervalT> >::type 
+                                                     domain_difference_type;
+    typedef is_increasing<domain_type, domain_compare> increasing;
+
+    static domain_type forward(domain_type pos, domain_difference_type dist)
+    { return increasing::value ? pos + dist : pos - dist; }
+
+    static domain_type backward(domain_type pos, domain_difference_type dist)
+    { return increasing::value ? pos - dist : pos + dist; }
+};
+
 //------------------------------------------------------------------------------
 //- struct segment_adapter
 //------------------------------------------------------------------------------
@@ -206,8 +226,9 @@ struct segment_adapter
     static transit_type transient_element(domain_type& inter_pos, const SegmentIteratorT& leaper, 
                                           const domain_difference_type& sneaker)
     { 
-        inter_pos = is_reverse<SegmentIteratorT>::value ? icl::last(*leaper)  - sneaker
-                                                        : icl::first(*leaper) + sneaker;
+        inter_pos = is_reverse<SegmentIteratorT>::value
+            ? bound_shift<interval_type>::backward(icl::last (*leaper), sneaker)
+            : bound_shift<interval_type>::forward (icl::first(*leaper), sneaker);
         return inter_pos; 
     }
 };
@@ -231,8 +252,9 @@ struct segment_adapter<SegmentIteratorT, std::pair<ICL_INTERVAL_TYPE(Interval,Do
     static transit_type transient_element(domain_type& inter_pos, const SegmentIteratorT& leaper,
                                           const domain_difference_type& sneaker)
     {
-        inter_pos = is_reverse<SegmentIteratorT>::value ? icl::last(leaper->first)  - sneaker
-                                                        : icl::first(leaper->first) + sneaker;
+        inter_pos = is_reverse<SegmentIteratorT>::value
+            ? bound_shift<interval_type>::backward(icl::last (leaper->first), sneaker)
+            : bound_shift<interval_type>::forward (icl::first(leaper->first), sneaker);
         return transit_type(inter_pos, leaper->second); 
     }
 };
-- 
2.43.0


From 45d1af96447a1dfbd338c65232a55f8090d88675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:11 +0000
Subject: [PATCH 08/17] fix: numeric_minimum of floating point types is the
 lowest value

---
 include/boost/icl/type_traits/is_numeric.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/type_traits/is_numeric.hpp b/include/boost/icl/type_traits/is_numeric.hpp
index 9ecc3a1..3221221 100644
--- a/include/boost/icl/type_traits/is_numeric.hpp
+++ b/include/boost/icl/type_traits/is_numeric.hpp
@@ -65,7 +65,11 @@ template<class Type>
 struct numeric_minimum<Type, std::less<Type>, true>
 {
     static bool is_less_than(Type value)
-    { return std::less<Type>()((std::numeric_limits<Type>::min)(), value); }
+    {   // For non integral types numeric_limits::min is not the minimum
+        return std::numeric_limits<Type>::is_integer
+            ? std::less<Type>()( (std::numeric_limits<Type>::min)(), value)
+            : std::less<Type>()(-(std::numeric_limits<Type>::max)(), value);
+    }
 
     static bool is_less_than_or(Type value, bool cond)
     { return cond || is_less_than(value); }
-- 
2.43.0


From 0f934eb0a7a6c9674acc5a2f4ac8fced50ed2d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:11 +0000
Subject: [PATCH 09/17] fix: let is_element_less and is_element_greater compile

---
 include/boost/icl/detail/element_comparer.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/boost/icl/detail/element_comparer.hpp b/include/boost/icl/detail/element_comparer.hpp
index 56ae8c5..463ee81 100644
--- a/include/boost/icl/detail/element_comparer.hpp
+++ b/include/boost/icl/detail/element_comparer.hpp
@@ -12,6 +12,7 @@ Copyright (c) 2008-2009: Joachim Faulhaber
 #include <boost/icl/type_traits/is_map.hpp>
 #include <boost/icl/detail/notate.hpp>
 #include <boost/icl/type_traits/identity_element.hpp>
+#include <boost/icl/concept/interval.hpp>
 
 namespace boost{namespace icl
 {
@@ -124,7 +125,7 @@ public:
             return stop;
         }
 
-        if(!key_value<LeftT>(_prior_left).touches(key_value<LeftT>(left)))
+        if(!icl::touches(key_value<LeftT>(_prior_left), key_value<LeftT>(left)))
         {   // left: same B = sameB...
             // right:sameA  = sameA...
             _result = greater;
@@ -146,7 +147,7 @@ public:
             return stop;
         }
 
-        if(!key_value<RightT>(_prior_right).touches(key_value<RightT>(right)))
+        if(!icl::touches(key_value<RightT>(_prior_right), key_value<RightT>(right)))
         {
             // left: sameA... = sameA...
             // right:same B.. = sameB...
-- 
2.43.0


From 0d6fd916e6f20ab4fce518240bdba6daaae9e70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:49 +0000
Subject: [PATCH 10/17] fix: let the documented element container functions
 compile

erase and subtract of keys, intersects, disjoint, contains, within,
inclusion_compare and ^= of element sets and maps called functions that are
declared later, took parameters that cannot be deduced, or used members that
std::set does not have.
---
 include/boost/icl/concept/element_associator.hpp |  3 ++-
 include/boost/icl/concept/element_map.hpp        | 13 +++++++++++--
 include/boost/icl/concept/element_set.hpp        |  4 ++--
 include/boost/icl/detail/subset_comparer.hpp     |  6 ++++++
 4 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 130d543..30b6477 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -12,6 +12,7 @@ Copyright (c) 2010-2010: Joachim Faulhaber
 #include <boost/icl/type_traits/is_associative_element_container.hpp>
 #include <boost/icl/type_traits/is_key_container_of.hpp>
 #include <boost/icl/type_traits/is_combinable.hpp>
+#include <boost/icl/detail/associated_value.hpp>
 #include <boost/icl/detail/subset_comparer.hpp>
 #include <boost/icl/concept/element_set.hpp>
 #include <boost/icl/concept/element_map.hpp>
@@ -432,7 +433,7 @@ operator & (Type object, const Type& operand)
 
 template<class Type, class CoType>
 inline typename enable_if<is_associative_element_container<Type>, bool>::type
-disjoint(const Type& left, const Type& right)
+disjoint(const Type& left, const CoType& right)
 {
     return !intersects(left, right);
 }
diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index b2d78ab..6e8f957 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -29,6 +29,14 @@ template<class Type, class Predicate>
 typename enable_if<is_associative_element_container<Type>, Type>::type&
 erase_if(const Predicate& pred, Type& object);
 
+template<class Type>
+typename enable_if<is_associative_element_container<Type>, typename Type::size_type>::type
+erase(Type& object, const typename Type::key_type& key_value);
+
+template<class Type>
+typename enable_if<is_associative_element_container<Type>, bool>::type
+contains(const Type& super, const typename Type::key_type& key);
+
 
 //==============================================================================
 //= Containedness<ElementMap>
@@ -150,7 +158,8 @@ template <class Type>
 typename enable_if<is_element_map<Type>, Type>::type&
 subtract(Type& object, const typename Type::domain_type& key_value)
 {
-    return icl::erase(object, key_value);
+    icl::erase(object, key_value);
+    return object;
 }
 
 //------------------------------------------------------------------------------
@@ -324,7 +333,7 @@ inline typename enable_if< mpl::and_< is_element_map<Type>
                          , bool>::type
 intersects(const Type& object, const typename Type::set_type& operand)
 {
-    if(object.iterative_size() < operand.iterative_size())
+    if(object.iterative_size() < operand.size())
         return Map::intersects(object, operand);
     else
         return Map::intersects(operand, object);
diff --git a/include/boost/icl/concept/element_set.hpp b/include/boost/icl/concept/element_set.hpp
index 8db130e..aabfa9f 100644
--- a/include/boost/icl/concept/element_set.hpp
+++ b/include/boost/icl/concept/element_set.hpp
@@ -70,7 +70,7 @@ template<class Type>
 inline typename enable_if<is_element_set<Type>, bool>::type
 intersects(const Type& object, const Type& operand)
 {
-    if(iterative_size(object) < iterative_size(operand))
+    if(object.size() < operand.size())
         return Set::intersects(object, operand);
     else
         return Set::intersects(operand, object);
@@ -93,7 +93,7 @@ flip(Type& object, const typename Type::value_type& operand)
 
 template<class Type>
 inline typename enable_if<is_element_set<Type>, Type>::type&
-operator ^= (Type& object, const typename Type::element_type& operand)
+operator ^= (Type& object, const typename Type::value_type& operand)
 {
     return icl::flip(object, operand); 
 }
diff --git a/include/boost/icl/detail/subset_comparer.hpp b/include/boost/icl/detail/subset_comparer.hpp
index 29f25a2..9915af9 100644
--- a/include/boost/icl/detail/subset_comparer.hpp
+++ b/include/boost/icl/detail/subset_comparer.hpp
@@ -22,6 +22,12 @@ Copyright (c) 2008-2009: Joachim Faulhaber
 namespace boost{namespace icl
 {
 
+//NOTE: Needed for codomains that are sets themselves.
+template<class LeftT, class RightT>
+typename enable_if<is_concept_equivalent<is_element_container,LeftT, RightT>,
+                   int>::type
+inclusion_compare(const LeftT& left, const RightT& right);
+
 #ifdef BOOST_MSVC 
 #pragma warning(push)
 #pragma warning(disable:4127) // conditional expression is constant
-- 
2.43.0


From bd2f8acad606dcaccabba21e98e6540761c606f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:49 +0000
Subject: [PATCH 11/17] fix: let map::insert take any iterators

---
 include/boost/icl/map.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/map.hpp b/include/boost/icl/map.hpp
index 0b11e56..af0c5a8 100644
--- a/include/boost/icl/map.hpp
+++ b/include/boost/icl/map.hpp
@@ -339,9 +339,9 @@ public:
     template<class Iterator>
     iterator insert(Iterator first, Iterator last)
     {
-        iterator prior = end(), it = first;
-        while(it != last)
-            prior = this->insert(prior, *it++);
+        iterator prior = end();
+        while(first != last)
+            prior = this->insert(prior, *first++);
         return prior;
     }
 
-- 
2.43.0


From 3f4491e145913c043fa73357ceff5ad5b16695a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:49 +0000
Subject: [PATCH 12/17] fix: set_at of an element map replaces the value

---
 include/boost/icl/concept/element_map.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index 6e8f957..346afe5 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -212,8 +212,10 @@ set_at(Type& object, const typename Type::element_type& operand)
     {
         std::pair<iterator,bool> insertion = object.insert(operand);
         if(!insertion.second)
-            insertion->second = operand.second;
+            (*insertion.first).second = operand.second;
     }
+    else
+        icl::erase(object, operand.first);
     return object;
 }
 
-- 
2.43.0


From 4ffa516256bc19dbfc74a340439858fac7c20585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:49 +0000
Subject: [PATCH 13/17] fix: absorb_identities of an element map erases what an
 enricher stores

---
 include/boost/icl/concept/element_map.hpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/boost/icl/concept/element_map.hpp b/include/boost/icl/concept/element_map.hpp
index 346afe5..0eeb3f8 100644
--- a/include/boost/icl/concept/element_map.hpp
+++ b/include/boost/icl/concept/element_map.hpp
@@ -460,15 +460,18 @@ inline typename enable_if<mpl::and_< is_element_map<Type>
                                    , absorbs_identities<Type> >, Type>::type&
 absorb_identities(Type& object)
 {
-    typedef typename Type::element_type element_type;
-    return icl::erase_if(content_is_identity_element<element_type>(), object);
+    return object;
 }
 
 template<class Type>
 inline typename enable_if<mpl::and_< is_element_map<Type>
                                    , mpl::not_<absorbs_identities<Type> > >
                          , Type>::type&
-absorb_identities(Type&){}
+absorb_identities(Type& object)
+{
+    typedef typename Type::element_type element_type;
+    return icl::erase_if(content_is_identity_element<element_type>(), object);
+}
 
 //==============================================================================
 //= Streaming<ElementMap>
-- 
2.43.0


From a63c03de66beab98013e0ca949f50c7e23e86a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:59 +0000
Subject: [PATCH 14/17] fix: size of discrete intervals that end at the
 greatest value of the domain

The cardinality was calculated from the successor of the last element. For an
interval that ends at the greatest value of an integral domain there is none:
interval_set<unsigned char>{[0,255]} had size 0.
---
 include/boost/icl/concept/interval.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index 6cb7681..454569c 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -1004,6 +1004,8 @@ struct is_increasing_interval
 };
 
 //- cardinality ----------------------------------------------------------------
+// The elements of a discrete interval are counted from first to last, because there
+// may be no value beyond the last one.
 
 template<class Type>
 typename boost::enable_if<is_continuous_interval<Type>,
@@ -1027,10 +1029,10 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(
+                                 : icl::succ(static_cast<SizeT>(
                                        is_increasing_interval<Type>::value
-                                           ? last_next(object) - first(object)
-                                           : first(object) - last_next(object));
+                                           ? last(object) - first(object)
+                                           : first(object) - last(object)));
 }
 
 template<class Type>
@@ -1052,10 +1054,10 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(
+                                 : icl::succ(static_cast<SizeT>(
                                        is_increasing_interval<Type>::value
-                                           ? last_next(object) - first(object)
-                                           : first(object) - last_next(object));
+                                           ? last(object) - first(object)
+                                           : first(object) - last(object)));
 }
 
 template<class Type>
@@ -1065,10 +1067,10 @@ cardinality(const Type& object)
 {
     typedef typename size_type_of<interval_traits<Type> >::type SizeT;
     return icl::is_empty(object) ? identity_element<SizeT>::value()
-                                 : static_cast<SizeT>(
+                                 : icl::succ(static_cast<SizeT>(
                                        is_increasing_interval<Type>::value
-                                           ? last_next(object) - first(object)
-                                           : first(object) - last_next(object));
+                                           ? last(object) - first(object)
+                                           : first(object) - last(object)));
 }
 
 
-- 
2.43.0


From 9dc879827342d13c402abaec4903ba682e3c685b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:22 +0000
Subject: [PATCH 15/17] fix: containedness of containers skips segments outside
 the operand

next_left and next_right walked segment by segment to the next segment of
the other operand instead of searching for it like next_both, so that
containedness of two far apart segments was linear in the larger container.
---
 include/boost/icl/detail/interval_subset_comparer.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/icl/detail/interval_subset_comparer.hpp b/include/boost/icl/detail/interval_subset_comparer.hpp
index 00ff116..74f5bdd 100644
--- a/include/boost/icl/detail/interval_subset_comparer.hpp
+++ b/include/boost/icl/detail/interval_subset_comparer.hpp
@@ -257,6 +257,10 @@ public:
                 //   ..........)
                 if(unrelated == restrict_result(subset))
                     return stop;            
+                //       ..)          [..   right may have to skip intervals
+                //       .........)
+                if(exclusive_less(key_value<RightT>(right), key_value<LeftT>(left)))
+                    return nextboth;
             }
             //else   ..)   [...
             //          [..
@@ -292,6 +296,10 @@ public:
                 //   ..)   [..
                 if(unrelated == restrict_result(superset))
                     return stop;            
+                //       [....)         left may have to skip intervals
+                //   ..)          [..
+                if(exclusive_less(key_value<LeftT>(left), key_value<RightT>(right)))
+                    return nextboth;
             }
             //else       [....)
             //   ..)   [..
-- 
2.43.0


From 0070ea01c7cbe74b594cb14cbbd661a386a9ccbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:50 +0000
Subject: [PATCH 16/17] fix: empty intervals contain nothing and compare
 without looking at their bounds

An empty interval at the least value of its domain has no last element, yet
contains and operator == computed one: contains([0u,0u), [0u,5u)) was true
(and an assertion failed where assertions are active).
---
 include/boost/icl/concept/interval.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/icl/concept/interval.hpp b/include/boost/icl/concept/interval.hpp
index 454569c..472f633 100644
--- a/include/boost/icl/concept/interval.hpp
+++ b/include/boost/icl/concept/interval.hpp
@@ -853,14 +853,16 @@ template<class Type>
 inline typename boost::enable_if<is_interval<Type>, bool>::type
 contains(const Type& super, const Type& sub)
 {
-    return icl::is_empty(sub) || non_empty::contains(super, sub);
+    return icl::is_empty(sub) 
+        || (!icl::is_empty(super) && non_empty::contains(super, sub));
 }
 
 template<class Type>
 typename boost::enable_if<is_discrete_static<Type>, bool>::type
 contains(const Type& super, const typename interval_traits<Type>::domain_type& element)
 {
-    return domain_less_equal<Type>(icl::first(super), element                  )
+    return !icl::is_empty(super)
+        && domain_less_equal<Type>(icl::first(super), element                  )
         && domain_less_equal<Type>(                   element, icl::last(super));
 }
 
@@ -907,8 +909,10 @@ template<class Type>
 typename boost::enable_if<is_interval<Type>, bool>::type
 operator == (const Type& left, const Type& right)
 {
-    return (icl::is_empty(left) && icl::is_empty(right))
-        || (lower_equal(left,right) && upper_equal(left,right));
+    if(icl::is_empty(left) || icl::is_empty(right))
+        return icl::is_empty(left) && icl::is_empty(right);
+    else
+        return lower_equal(left,right) && upper_equal(left,right);
 }
 
 template<class Type>
-- 
2.43.0


From f597553b1b5fea46d3a06fd8eaa273b713064583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:44 +0000
Subject: [PATCH 17/17] fix: erase and subtract step on before the element at
 hand may vanish

Erasing an element container from itself, or subtracting it from itself,
incremented an iterator to an erased element. This is what subtracting a
segment of a map of sets from that map came down to.
---
 include/boost/icl/concept/element_associator.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/boost/icl/concept/element_associator.hpp b/include/boost/icl/concept/element_associator.hpp
index 30b6477..fc9f409 100644
--- a/include/boost/icl/concept/element_associator.hpp
+++ b/include/boost/icl/concept/element_associator.hpp
@@ -307,8 +307,9 @@ template<class Type>
 typename enable_if<is_associative_element_container<Type>, Type>::type&
 erase(Type& object, const Type& erasure)
 {
-    ICL_const_FORALL(typename Type, elem_, erasure)
-        icl::erase(object, *elem_);
+    typename Type::const_iterator elem_ = erasure.begin();
+    while(elem_ != erasure.end())
+        icl::erase(object, *elem_++);
 
     return object;
 }
@@ -336,8 +337,9 @@ template <class Type>
 inline typename enable_if<is_associative_element_container<Type>, Type>::type&
 operator -= (Type& object, const Type& subtrahend)
 {
-    ICL_const_FORALL(typename Type, it_, subtrahend)
-        icl::subtract(object, *it_);
+    typename Type::const_iterator it_ = subtrahend.begin();
+    while(it_ != subtrahend.end())
+        icl::subtract(object, *it_++);
 
     return object;
 }
-- 
2.43.0

