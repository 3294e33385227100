From e92014eff9ad686dea3e42111654a417760d5415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:33 +0000
Subject: [PATCH 01/86] verif hook: triples parsed per group can be set by the
 verification harness (GSTORE_VERIF)

---
 Parser/RDFParser.cpp | 4 ++++
 Parser/RDFParser.h   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Parser/RDFParser.cpp b/Parser/RDFParser.cpp
index 12071e5..db552f4 100644
--- a/Parser/RDFParser.cpp
+++ b/Parser/RDFParser.cpp
@@ -8,6 +8,10 @@ RDF-3X's TurtleParser
 =============================================================================*/
 #include "RDFParser.h"
 
+#ifdef GSTORE_VERIF
+int RDFParser::TRIPLE_NUM_PER_GROUP = 10 * 1000 * 1000;
+#endif
+
 /** Constructor for parseString. Passes the member stringstream to 
  * TurtleParser, which can later be fed other strings containing RDF
  * data in parseString.
diff --git a/Parser/RDFParser.h b/Parser/RDFParser.h
index 92799b4..52fc1ef 100644
--- a/Parser/RDFParser.h
+++ b/Parser/RDFParser.h
@@ -25,7 +25,11 @@ private:
     TurtleParser _TurtleParser;
 
 public:
+#ifdef GSTORE_VERIF
+    static int TRIPLE_NUM_PER_GROUP;  // set by the verification harness
+#else
     static const int TRIPLE_NUM_PER_GROUP = 10 * 1000 * 1000;
+#endif
 
     RDFParser();
     RDFParser(ifstream& _fin);
-- 
2.43.0


From 54149e2c71e94afeebdf6506ea9e6186f398ed46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 02/86] fix: the DELETE template of DELETE/INSERT/WHERE was
 added to the insert patterns

---
 Parser/QueryParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 22609ff..470d0f8 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1476,8 +1476,10 @@ antlrcpp::Any QueryParser::visitModify(SPARQLParser::ModifyContext *ctx)
 
 	if (ctx->deleteClause() && ctx->insertClause())
 	{
-		query_tree_ptr->setUpdateType(QueryTree::Modify_Clause);
+		// visitTriplesSameSubject sorts the templates by update type
+		query_tree_ptr->setUpdateType(QueryTree::Delete_Clause);
 		visit(ctx->deleteClause());
+		query_tree_ptr->setUpdateType(QueryTree::Modify_Clause);
 		visit(ctx->insertClause());
 	}
 	else if (ctx->deleteClause())
-- 
2.43.0


From 2f5ddfe6016787e2ab6e02fb800ca128e1b401fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 03/86] fix: expand prefixed names and 'a' in the predicate
 position of updates

---
 Parser/QueryParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 470d0f8..22eaf8e 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -1531,6 +1531,9 @@ antlrcpp::Any QueryParser::visitTriplesSameSubject(SPARQLParser::TriplesSameSubj
 	for (int i = 0; i < numChild; i++)
 	{
 		predicate = propertyListNotEmpty->verb(i)->getText();
+		if (predicate == "a")
+			predicate = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#type>";
+		replacePrefix(predicate);
 		auto objectList = propertyListNotEmpty->objectList(i);
 		for (auto object_ptr : objectList->object())
 		{
-- 
2.43.0


From bbeb3036797b52e0100b732b5561805ed3143ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 04/86] fix: deleting the last, self-referencing triple of an
 entity freed its id twice

---
 Database/Database.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 92064fc..4a5d69b 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3442,7 +3442,8 @@ bool Database::removeTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		if (is_obj_entity)
 		{
 			obj_degree = this->kvstore->getEntityDegree(_obj_id);
-			if (obj_degree == 0)
+			// an isolated subject that is also the object has been removed above
+			if (obj_degree == 0 && _obj_id != _sub_id)
 			{
 				this->kvstore->subEntityByID(_obj_id);
 				this->kvstore->subIDByEntity(_triple.object);
-- 
2.43.0


From 3808fa0c72608965b3ea7765f61f203867ce6475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 05/86] fix: batch_remove left uninitialised id tuples for
 triples with unknown terms

---
 Database/Database.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 4a5d69b..688ac96 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4081,14 +4081,19 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 			continue;
 		}
 
-		id_tuples[i].subid = _sub_id;
-		id_tuples[i].preid = _pre_id;
-		id_tuples[i].objid = _obj_id;
+		id_tuples[valid_num].subid = _sub_id;
+		id_tuples[valid_num].preid = _pre_id;
+		id_tuples[valid_num].objid = _obj_id;
+		valid_num++;
 		sub_ids.insert(_sub_id);
 		pre_ids.insert(_pre_id);
 		obj_ids.insert(_obj_id);
 	}
 
+	// triples with an unknown term are not in the database
+	id_tuples.resize(valid_num);
+	if (valid_num == 0)
+		return 0;
 	sort(id_tuples.begin(), id_tuples.end(), Util::spo_cmp_idtuple);
 	auto new_end = unique(id_tuples.begin(), id_tuples.end(), Util::equal);
 	id_tuples.erase(new_end, id_tuples.end());
-- 
2.43.0


From 07fde33abf2d0d30f2e26997355c107d54710b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:37 +0000
Subject: [PATCH 06/86] fix: LIMIT cut the solutions before OFFSET, DISTINCT,
 GROUP BY and aggregates were applied

---
 Query/GeneralEvaluation.cpp | 17 ++++++++---------
 Query/QueryTree.cpp         | 15 +++++++++++++++
 Query/QueryTree.h           |  1 +
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 8405126..c618c02 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -478,9 +478,9 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 				QueryInfo query_info;
 				query_info.limit_ = false;
 				query_info.limit_num_ = 0;
-				if(this->query_tree.getLimit()!=-1 && this->query_tree.getSingleBGP()) {
+				if(this->query_tree.getLimitOfSolutions()!=-1 && this->query_tree.getSingleBGP()) {
 					query_info.limit_ = true;
-					query_info.limit_num_ = this->query_tree.getLimit();
+					query_info.limit_num_ = this->query_tree.getLimitOfSolutions();
 				}
 				query_info.is_distinct_ = this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct;
 				query_info.ordered_by_expressions_ = make_shared<vector<Order>>();
@@ -903,9 +903,9 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 
 					query_info.limit_ = false;
 					query_info.limit_num_ = -1;
-					if(this->query_tree.getLimit()!=-1 && this->query_tree.getSingleBGP()) {
+					if(this->query_tree.getLimitOfSolutions()!=-1 && this->query_tree.getSingleBGP()) {
 						query_info.limit_ = true;
-						query_info.limit_num_ = this->query_tree.getLimit();
+						query_info.limit_num_ = this->query_tree.getLimitOfSolutions();
 					}
 
 					query_info.is_distinct_ = this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct;
@@ -1055,7 +1055,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 								// If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
 								if (dep == 0 && query_tree.getOrderByVarset().empty() && l == rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern.size() - 1) {
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
-										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimitOfSolutions());
 								} else
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
 										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset);
@@ -1108,7 +1108,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 								// If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
 								if (dep == 0 && query_tree.getOrderByVarset().empty() && l == rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern.size() - 1) {
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
-										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimitOfSolutions());
 								} else
 									sub_result->doFilter(rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[l].filter, kvstore,\
 										rewriting_evaluation_stack[dep].group_pattern.group_pattern_subject_object_maximal_varset);
@@ -1183,7 +1183,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 		{
             // If FILTER scope is global && no ORDER BY && is the last operation, doFilter with limit
 			if (dep == 0 && query_tree.getOrderByVarset().empty() && i == group_pattern.sub_group_pattern.size() - 1)
-				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimit());
+				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, group_pattern.group_pattern_subject_object_maximal_varset, query_tree.getLimitOfSolutions());
 			else
 				result->doFilter(group_pattern.sub_group_pattern[i].filter, kvstore, group_pattern.group_pattern_subject_object_maximal_varset);
 			result->initial = false;
@@ -3490,8 +3490,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 		}
 #endif
 
-		if (!(query_tree.getSingleBGP() && query_tree.getLimit() != -1 && ranked))
-			ret_result.setOutputOffsetLimit(this->query_tree.getOffset(), this->query_tree.getLimit());
+		ret_result.setOutputOffsetLimit(this->query_tree.getOffset(), this->query_tree.getLimit());
 		if (!ret_result.checkUseStream())
 		{
 			ret_result.answer = new string*[ret_result.ansNum];
diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index 59b4ec7..71d2321 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -757,6 +757,21 @@ int QueryTree::getLimit()
 	return this->limit;
 }
 
+/**
+	Get the number of solutions of the WHERE clause after which evaluation may stop
+	(OFFSET + LIMIT), which is unbounded when several solutions may make up one result.
+	
+	@return the number of solutions needed, or -1 if all of them are.
+*/
+int QueryTree::getLimitOfSolutions()
+{
+	if (this->limit == -1 || !this->group_by.empty() || this->checkAtLeastOneAggregateFunction() \
+		|| (this->order_by.empty() && this->projection_modifier == Modifier_Distinct))
+		return -1;
+	long long needed = (long long)this->limit + this->offset;
+	return needed > numeric_limits<int>::max() ? -1 : (int)needed;
+}
+
 /**
 	Get the outermost group graph pattern of this query.
 	
diff --git a/Query/QueryTree.h b/Query/QueryTree.h
index 13cc757..d917936 100644
--- a/Query/QueryTree.h
+++ b/Query/QueryTree.h
@@ -186,6 +186,7 @@ public:
 	int getOffset();
 	void setLimit(int _limit);
 	int getLimit();
+	int getLimitOfSolutions();
 
 	GroupPattern& getGroupPattern();
 	const GroupPattern &getGroupPattern() const {return this->group_pattern;}
-- 
2.43.0


From 74c4eeaa5369d31512d673d4bd1fc1eedbf63d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 07/86] fix: triples without variables ended the process or
 were ignored; projection lost solutions of patterns with a variable predicate

---
 Query/GeneralEvaluation.cpp | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index c618c02..ce237cf 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -381,7 +381,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 				this->rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[i].pattern.predicate.value, \
 				this->rewriting_evaluation_stack[dep].group_pattern.sub_group_pattern[i].pattern.object.value));
 		}
-		if (singleBGP && allConstants)
+		if (dep == 0 && singleBGP && allConstants)
 		{
 			// Check if these constant triples exist in database
 			bool exist = BGPQuery::CheckConstBGPExist(triple_vt, kvstore);
@@ -523,7 +523,6 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						if (group_pattern.sub_group_pattern[j].type == GroupPattern::SubGroupPattern::Pattern_type \
 							&& !group_pattern.sub_group_pattern[j].pattern.kleene)
 						{
-							if (!group_pattern.sub_group_pattern[j].pattern.varset.empty())
 							{
 								if (group_pattern.getRootPatternBlockID(j) == j)		//root node, coming from mergePatternBlockID
 								{
@@ -624,6 +623,8 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						// bgp_query_vec[j]->print(kvstore);
 						if (!encode_constant_exist[j])
 							continue;	// If any constant in this BGP does not exist, do not need to DoQuery
+						if (basic_query_handle[j].size() == 1 && basic_query_handle[j][0].varset.empty())
+							continue;	// Nothing to match, only checked for existence below
 						ranked = get<1>(this->optimizer_->DoQuery(bgp_query_vec[j],query_info));
 					}
 					#endif
@@ -646,6 +647,10 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						vector<unsigned*> &basicquery_result = sparql_query.getBasicQuery(j).getResultList();
 						#else
 						copyBgpResult2TempResult(bgp_query_vec[j], varnum, temp->results[0]);
+						// A triple without variables has one solution, without bindings, if it exists
+						if (basic_query_handle[j].size() == 1 && basic_query_handle[j][0].varset.empty() && BGPQuery::CheckConstBGPExist( \
+							{Triple(basic_query_handle[j][0].subject.value, basic_query_handle[j][0].predicate.value, basic_query_handle[j][0].object.value)}, kvstore))
+							temp->results[0].result.emplace_back();
 						#endif
 
 						if (this->query_cache != NULL)
@@ -824,8 +829,15 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 									basic_query.push_back(triple_pattern.sub_group_pattern[k].pattern);
 								}
 
+							//// A triple with a variable predicate yields its predicates once each unless both its ends are kept ////
+							bool keep_all = false;
+							for (int k = 0; k < (int)basic_query.size(); k++)
+								if (basic_query[k].predicate.value[0] == '?' \
+									&& this->query_tree.getProjectionModifier() != QueryTree::ProjectionModifier::Modifier_Distinct)
+									keep_all = true;
+
 							//// Reduce useful: return result vars ////
-							if (!this->query_tree.checkProjectionAsterisk() && local_useful.hasCommonVar(occur))
+							if (!keep_all && !this->query_tree.checkProjectionAsterisk() && local_useful.hasCommonVar(occur))
 								local_useful = local_useful * occur;	// Only the common vars remain
 							else
 								local_useful = occur;
@@ -926,6 +938,8 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						// bgp_query_vec[l]->print(kvstore);
 						if (!encode_constant_exist[l])
 							continue;
+						if (basic_query_handle[l].size() == 1 && basic_query_handle[l][0].varset.empty())
+							continue;	// Nothing to match, only checked for existence below
 						ranked = get<1>(this->optimizer_->DoQuery(bgp_query_vec[l],query_info));
 					}
 					#endif
@@ -948,6 +962,10 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						vector<unsigned*> &basicquery_result = sparql_query.getBasicQuery(l).getResultList();
 						#else
 						copyBgpResult2TempResult(bgp_query_vec[l], varnum, temp->results[0]);
+						// A triple without variables has one solution, without bindings, if it exists
+						if (basic_query_handle[l].size() == 1 && basic_query_handle[l][0].varset.empty() && BGPQuery::CheckConstBGPExist( \
+							{Triple(basic_query_handle[l][0].subject.value, basic_query_handle[l][0].predicate.value, basic_query_handle[l][0].object.value)}, kvstore))
+							temp->results[0].result.emplace_back();
 						#endif
 						
 						// cout << "Use count = " << bgp_query_vec[l].use_count() << endl;
-- 
2.43.0


From f31cba2b356955a3311f853132f0be63b420013e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 08/86] fix: patterns sharing a predicate variable were joined
 without checking it, or limited and projected before the join

---
 Database/Executor.cpp       |  2 +-
 Database/PlanTree.cpp       | 24 ++++++++++++++++++++++++
 Query/GeneralEvaluation.cpp | 12 ++++++++----
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/Database/Executor.cpp b/Database/Executor.cpp
index 1e9424f..b36fe21 100644
--- a/Database/Executor.cpp
+++ b/Database/Executor.cpp
@@ -771,7 +771,7 @@ tuple<bool,TableContentShardPtr> gstore::Executor::OneEdgeConstraintFilter(EdgeI
         result_table->push_back(*record_iterator);
     }
     if(!remain_old)
-      record_iterator = result_table->erase(record_iterator);
+      record_iterator = table_content_ptr->erase(record_iterator);
     else
       record_iterator++;
     delete [] edge_candidate_list;
diff --git a/Database/PlanTree.cpp b/Database/PlanTree.cpp
index 6e7c4c0..08bcdf3 100644
--- a/Database/PlanTree.cpp
+++ b/Database/PlanTree.cpp
@@ -80,6 +80,18 @@ PlanTree::PlanTree(unsigned first_node, BGPQuery *bgpquery) {
 		for(unsigned i = beg; i < need_join_two_nodes_edge_index.size(); ++i){
 			unsigned edge_index = var_descrip->so_edge_index_[need_join_two_nodes_edge_index[i]];
 			if(find(already_joined_pre_var.begin(), already_joined_pre_var.end(), bgpquery->p_id_[edge_index]) != already_joined_pre_var.end()){
+				// the pre_var joined together with this node by the first edge, this edge still has to hold
+				if(beg == 1 && bgpquery->p_id_[edge_index] == bgpquery->p_id_[var_descrip->so_edge_index_[need_join_two_nodes_edge_index[0]]]){
+					auto check_info = make_shared<vector<EdgeInfo>>();
+					auto check_const = make_shared<vector<EdgeConstantInfo>>();
+					check_info->emplace_back(bgpquery->s_id_[edge_index], bgpquery->p_id_[edge_index], bgpquery->o_id_[edge_index],
+											 var_descrip->so_edge_type_[need_join_two_nodes_edge_index[i]] == Util::EDGE_IN ? JoinMethod::sp2o : JoinMethod::po2s);
+					check_const->emplace_back(bgpquery->s_is_constant_[edge_index], bgpquery->p_is_constant_[edge_index], bgpquery->o_is_constant_[edge_index]);
+					Tree_node *check_node = new Tree_node(make_shared<StepOperation>(StepOperation::StepOpType::Check, StepOperation::OpRangeType::OneNode,
+																					 make_shared<AffectOneNode>(first_node, check_info, check_const), nullptr, nullptr, bgpquery->distinct_query));
+					check_node->left_node = root_node;
+					root_node = check_node;
+				}
 				continue;
 			} else{
 				// selected_ == true or degree >= 2
@@ -204,6 +216,18 @@ PlanTree::PlanTree(PlanTree *last_plantree, BGPQuery *bgpquery, unsigned next_no
 		for(unsigned i = beg; i < need_join_two_nodes_index.size(); ++i){
 			unsigned edge_index = var_descrip->so_edge_index_[need_join_two_nodes_index[i]];
 			if(find(already_joined_pre_var.begin(), already_joined_pre_var.end(), bgpquery->p_id_[edge_index]) != already_joined_pre_var.end()){
+				// the pre_var joined together with this node by the first edge, this edge still has to hold
+				if(beg == 1 && bgpquery->p_id_[edge_index] == bgpquery->p_id_[var_descrip->so_edge_index_[need_join_two_nodes_index[0]]]){
+					auto check_info = make_shared<vector<EdgeInfo>>();
+					auto check_const = make_shared<vector<EdgeConstantInfo>>();
+					check_info->emplace_back(bgpquery->s_id_[edge_index], bgpquery->p_id_[edge_index], bgpquery->o_id_[edge_index],
+											 var_descrip->so_edge_type_[need_join_two_nodes_index[i]] == Util::EDGE_IN ? JoinMethod::sp2o : JoinMethod::po2s);
+					check_const->emplace_back(bgpquery->s_is_constant_[edge_index], bgpquery->p_is_constant_[edge_index], bgpquery->o_is_constant_[edge_index]);
+					Tree_node *check_node = new Tree_node(make_shared<StepOperation>(StepOperation::StepOpType::Check, StepOperation::OpRangeType::OneNode,
+																					 make_shared<AffectOneNode>(next_node, check_info, check_const), nullptr, nullptr, bgpquery->distinct_query));
+					check_node->left_node = root_node;
+					root_node = check_node;
+				}
 				continue;
 			} else{
 				// selected_ == true or degree >= 2
diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index ce237cf..8de4f4d 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -611,6 +611,10 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					long tv_fillcand = Util::get_cur_time();
 					printf("after FillCand, used %ld ms.\n", tv_fillcand - tv_encode);
 
+					// The solutions of one of several BGPs are joined with the others before any limit applies
+					if (bgp_query_vec.size() != 1)
+						query_info.limit_ = false;
+
 					#ifndef TEST_BGPQUERY
 					this->optimizer_->DoQuery(sparql_query,query_info);
 					#else
@@ -829,11 +833,11 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 									basic_query.push_back(triple_pattern.sub_group_pattern[k].pattern);
 								}
 
-							//// A triple with a variable predicate yields its predicates once each unless both its ends are kept ////
+							//// A triple with a variable predicate yields its predicates once each unless both its ends are kept, ////
+							//// and patterns that share only that variable are joined later on it ////
 							bool keep_all = false;
 							for (int k = 0; k < (int)basic_query.size(); k++)
-								if (basic_query[k].predicate.value[0] == '?' \
-									&& this->query_tree.getProjectionModifier() != QueryTree::ProjectionModifier::Modifier_Distinct)
+								if (basic_query[k].predicate.value[0] == '?')
 									keep_all = true;
 
 							//// Reduce useful: return result vars ////
@@ -915,7 +919,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 
 					query_info.limit_ = false;
 					query_info.limit_num_ = -1;
-					if(this->query_tree.getLimitOfSolutions()!=-1 && this->query_tree.getSingleBGP()) {
+					if(this->query_tree.getLimitOfSolutions()!=-1 && this->query_tree.getSingleBGP() && bgp_query_vec.size() == 1) {
 						query_info.limit_ = true;
 						query_info.limit_num_ = this->query_tree.getLimitOfSolutions();
 					}
-- 
2.43.0


From fda75a66e48bd549abf0bffe63bbacf0e86ca5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 09/86] fix: solutions of an OPTIONAL were merged when its own
 variables were not selected

---
 Query/GeneralEvaluation.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 8de4f4d..d61d074 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -835,7 +835,8 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 
 							//// A triple with a variable predicate yields its predicates once each unless both its ends are kept, ////
 							//// and patterns that share only that variable are joined later on it ////
-							bool keep_all = false;
+							//// and an OPTIONAL matched from candidates yields each of them once unless its variables are kept ////
+							bool keep_all = dep > 0;
 							for (int k = 0; k < (int)basic_query.size(); k++)
 								if (basic_query[k].predicate.value[0] == '?')
 									keep_all = true;
-- 
2.43.0


From e15351c398232a6bce86ccc8eead6a7fcc749aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:56 +0000
Subject: [PATCH 10/86] fix: string columns were emptied by a join of patterns
 without common variables

---
 Query/TempResult.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 28be3c5..d82c442 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -350,12 +350,10 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 
 						for (int k = 0; k < this_str_cols; k++)
 							// copy(this->result[i].str[k].begin(), this->result[i].str[k].end(), v[this2r_str_pos[k]].begin());
-							v[this2r_str_pos[k]] = std::move(this->result[i].str[k]);
-							// v[this2r_str_pos[k]] = this->result[i].str[k];	// move
+							v[this2r_str_pos[k]] = this->result[i].str[k];
 						for (int k = 0; k < x_str_cols; k++)
 							// copy(x.result[j].str[k].begin(), x.result[j].str[k].end(), v[x2r_str_pos[k]].begin());
-							v[x2r_str_pos[k]] = std::move(x.result[j].str[k]);
-							// v[x2r_str_pos[k]] = x.result[j].str[k];	// move
+							v[x2r_str_pos[k]] = x.result[j].str[k];
 
 						curr++;
 					}
@@ -370,12 +368,10 @@ void TempResult::doJoin(TempResult &x, TempResult &r)
 
 						for (int k = 0; k < this_str_cols; k++)
 							// copy(this->result[i].str[k].begin(), this->result[i].str[k].end(), v[this2r_str_pos[k]].begin());
-							v[this2r_str_pos[k]] = std::move(this->result[i].str[k]);
-							// v[this2r_str_pos[k]] = this->result[i].str[k];	// move
+							v[this2r_str_pos[k]] = this->result[i].str[k];
 						for (int k = 0; k < x_str_cols; k++)
 							// copy(x.result[j].str[k].begin(), x.result[j].str[k].end(), v[x2r_str_pos[k]].begin());
-							v[x2r_str_pos[k]] = std::move(x.result[j].str[k]);
-							// v[x2r_str_pos[k]] = x.result[j].str[k];	// move
+							v[x2r_str_pos[k]] = x.result[j].str[k];
 
 						curr++;
 					}
-- 
2.43.0


From 0dbd0e89838cd38cd0e4ccb77cfe15fc6158ea49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:56 +0000
Subject: [PATCH 11/86] fix: a FILTER was applied before the rest of its group
 when written first

---
 Parser/QueryParser.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index 22eaf8e..adff36e 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -943,11 +943,17 @@ antlrcpp::Any QueryParser::visitGroupGraphPatternSub(SPARQLParser::GroupGraphPat
 		visitTriplesBlock(ctx->triplesBlock(), group_pattern);
 	for (auto graphPatternTriplesBlock : ctx->graphPatternTriplesBlock())
 	{
-		visitGraphPatternNotTriples(graphPatternTriplesBlock->graphPatternNotTriples(), \
-			group_pattern);
+		if (!graphPatternTriplesBlock->graphPatternNotTriples()->filter())
+			visitGraphPatternNotTriples(graphPatternTriplesBlock->graphPatternNotTriples(), \
+				group_pattern);
 		if (graphPatternTriplesBlock->triplesBlock())
 			visitTriplesBlock(graphPatternTriplesBlock->triplesBlock(), group_pattern);
 	}
+	// a FILTER applies to the whole group, wherever it is written
+	for (auto graphPatternTriplesBlock : ctx->graphPatternTriplesBlock())
+		if (graphPatternTriplesBlock->graphPatternNotTriples()->filter())
+			visitGraphPatternNotTriples(graphPatternTriplesBlock->graphPatternNotTriples(), \
+				group_pattern);
 
 	return antlrcpp::Any();
 }
-- 
2.43.0


From 8270862d2f016ad5ca8f770f97fd0b7fe96f05fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 12/86] fix: ORDER BY compared unbound and differently typed
 values inconsistently and ignored all keys but the first

---
 Util/Stream.cpp | 53 ++++++++++++++++++++++++++++++++-----------------
 Util/Stream.h   |  2 +-
 2 files changed, 36 insertions(+), 19 deletions(-)

diff --git a/Util/Stream.cpp b/Util/Stream.cpp
index b31828b..aa90196 100644
--- a/Util/Stream.cpp
+++ b/Util/Stream.cpp
@@ -18,6 +18,37 @@ using namespace std;
 //The error is marked by DEBUG1 and DEBUG2, and I just use STL::stable_sort() here, because I cannot find
 //the reason of the null pointer error if using STL::sort()
 
+//The order of ORDER BY: unbound, then IRIs, then literals; negative, zero or positive like strcmp
+static int compareTerm(const Bstr& a, const Bstr& b)
+{
+    string a_str(a.getStr() ? a.getStr() : "", a.getStr() ? a.getLen() : 0), b_str(b.getStr() ? b.getStr() : "", b.getStr() ? b.getLen() : 0);
+    if (a_str == b_str)
+        return 0;
+    int a_rank = a_str.empty() ? 0 : (a_str[0] == '<' ? 1 : 2), b_rank = b_str.empty() ? 0 : (b_str[0] == '<' ? 1 : 2);
+    if (a_rank != b_rank)
+        return a_rank - b_rank;
+    EvalMultitypeValue a_emv, b_emv;
+    a_emv.term_value = a_str;
+    a_emv.deduceTypeValue();
+    b_emv.term_value = b_str;
+    b_emv.deduceTypeValue();
+    bool a_num = EvalMultitypeValue::xsd_integer <= a_emv.datatype && a_emv.datatype <= EvalMultitypeValue::xsd_double;
+    bool b_num = EvalMultitypeValue::xsd_integer <= b_emv.datatype && b_emv.datatype <= EvalMultitypeValue::xsd_double;
+    //values of different kinds are not comparable: keep each kind together
+    if (a_num != b_num)
+        return a_num ? -1 : 1;
+    if (!a_num && a_emv.datatype != b_emv.datatype)
+        return a_emv.datatype < b_emv.datatype ? -1 : 1;
+    EvalMultitypeValue less = a_emv < b_emv, greater = a_emv > b_emv;
+    if (less.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+        return -1;
+    if (greater.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+        return 1;
+    if (less.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::error_value)
+        return a_str.compare(b_str);
+    return 0;
+}
+
 bool ResultCmp::operator() (Bstr* const& a, Bstr* const& b)
 {
     //for(int i = 0; i < result_len; ++i)
@@ -26,26 +57,12 @@ bool ResultCmp::operator() (Bstr* const& a, Bstr* const& b)
             //return (a[i] < b[i]);
     //}
     unsigned size = this->keys.size();
-    EvalMultitypeValue a_emv, b_emv, res;
-    int retVal = 0;
     for(unsigned i = 0; i < size; ++i) {
-        int t = this->keys[i];
-        if (a[t] == b[t])
-            continue;
-
-        a_emv.term_value.assign(a[t].getStr(), a[t].getLen());
-        a_emv.deduceTypeValue();
-        b_emv.term_value.assign(b[t].getStr(), b[t].getLen());
-        b_emv.deduceTypeValue();
-
-        if(this->desc[i])
-            res = a_emv > b_emv;
-        else
-            res = a_emv < b_emv;
-        retVal = res.bool_value.getValue();
-        return retVal;  // 1 or 2: true or error value, return true; 0: false, return false
+        int c = compareTerm(a[this->keys[i]], b[this->keys[i]]);
+        if (c != 0)
+            return this->desc[i] ? c > 0 : c < 0;
     }
-    return true;
+    return false;
 }
 
 void
diff --git a/Util/Stream.h b/Util/Stream.h
index ffe9ea5..de92562 100644
--- a/Util/Stream.h
+++ b/Util/Stream.h
@@ -83,7 +83,7 @@ struct GreaterElement {
 	GreaterElement() {}
 	GreaterElement(const ResultCmp &mycmp_): mycmp(mycmp_) {}
 	bool operator () (const Element& _a, const Element& _b) {
-		return mycmp(_a.val, _b.val);
+		return mycmp(_b.val, _a.val);	// the heap keeps the first element in output order on top
 	}
 };
 
-- 
2.43.0


From 15eb44084db302c37ce65e21e736a27ee4a44ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 13/86] fix: comparing strings or IRIs of which one is a prefix
 of the other compared the closing delimiter

---
 Util/EvalMultitypeValue.cpp | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 32c31c9..32c12e5 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -163,6 +163,15 @@ EvalMultitypeValue::EffectiveBooleanValue
 }
 
 
+// compares without the closing quote or bracket, which is not part of the value
+static int compareLexical(const string &a, const string &b)
+{
+	size_t a_end = a.empty() ? string::npos : (a[0] == '<' ? a.rfind('>') : a.rfind('"'));
+	size_t b_end = b.empty() ? string::npos : (b[0] == '<' ? b.rfind('>') : b.rfind('"'));
+	int ret = a.substr(0, a_end).compare(b.substr(0, b_end));
+	return ret != 0 ? ret : a.compare(b);
+}
+
 bool EvalMultitypeValue::isSimpleLiteral()
 {
 	if (this->datatype == literal)
@@ -460,7 +469,7 @@ EvalMultitypeValue
 	// if (this->isSimpleLiteral() && x.isSimpleLiteral())
 	if (this->datatype == literal && x.datatype == literal)
 	{
-		ret_femv.bool_value = (this->str_value < x.str_value);
+		ret_femv.bool_value = (compareLexical(this->str_value, x.str_value) < 0);
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -468,7 +477,7 @@ EvalMultitypeValue
 
 	if (this->datatype == xsd_string && x.datatype == xsd_string)
 	{
-		ret_femv.bool_value = (this->str_value < x.str_value);
+		ret_femv.bool_value = (compareLexical(this->str_value, x.str_value) < 0);
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -484,7 +493,7 @@ EvalMultitypeValue
 
 	if (this->datatype == iri && x.datatype == iri)
 	{
-		ret_femv.bool_value = (this->str_value < x.str_value);
+		ret_femv.bool_value = (compareLexical(this->str_value, x.str_value) < 0);
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -530,7 +539,7 @@ EvalMultitypeValue
 
 	if (this->isSimpleLiteral() && x.isSimpleLiteral())
 	{
-		ret_femv.bool_value = (this->str_value <= x.str_value);
+		ret_femv.bool_value = (compareLexical(this->str_value, x.str_value) <= 0);
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -538,7 +547,7 @@ EvalMultitypeValue
 
 	if (this->datatype == xsd_string && x.datatype == xsd_string)
 	{
-		ret_femv.bool_value = (this->str_value <= x.str_value);
+		ret_femv.bool_value = (compareLexical(this->str_value, x.str_value) <= 0);
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -554,7 +563,7 @@ EvalMultitypeValue
 
 	if (this->datatype == iri && x.datatype == iri)
 	{
-		ret_femv.bool_value = (this->str_value <= x.str_value);
+		ret_femv.bool_value = (compareLexical(this->str_value, x.str_value) <= 0);
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -600,7 +609,7 @@ EvalMultitypeValue
 
 	if (this->isSimpleLiteral() && x.isSimpleLiteral())
 	{
-		ret_femv.bool_value = (this->str_value > x.str_value);
+		ret_femv.bool_value = (compareLexical(this->str_value, x.str_value) > 0);
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -608,7 +617,7 @@ EvalMultitypeValue
 
 	if (this->datatype == xsd_string && x.datatype == xsd_string)
 	{
-		ret_femv.bool_value = (this->str_value > x.str_value);
+		ret_femv.bool_value = (compareLexical(this->str_value, x.str_value) > 0);
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -624,7 +633,7 @@ EvalMultitypeValue
 
 	if (this->datatype == iri && x.datatype == iri)
 	{
-		ret_femv.bool_value = (this->str_value > x.str_value);
+		ret_femv.bool_value = (compareLexical(this->str_value, x.str_value) > 0);
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -670,7 +679,7 @@ EvalMultitypeValue
 
 	if (this->isSimpleLiteral() && x.isSimpleLiteral())
 	{
-		ret_femv.bool_value = (this->str_value >= x.str_value);
+		ret_femv.bool_value = (compareLexical(this->str_value, x.str_value) >= 0);
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -678,7 +687,7 @@ EvalMultitypeValue
 
 	if (this->datatype == xsd_string && x.datatype == xsd_string)
 	{
-		ret_femv.bool_value = (this->str_value >= x.str_value);
+		ret_femv.bool_value = (compareLexical(this->str_value, x.str_value) >= 0);
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
@@ -694,7 +703,7 @@ EvalMultitypeValue
 
 	if (this->datatype == iri && x.datatype == iri)
 	{
-		ret_femv.bool_value = (this->str_value >= x.str_value);
+		ret_femv.bool_value = (compareLexical(this->str_value, x.str_value) >= 0);
 
 		ret_femv.deduceTermValue();
 		return ret_femv;
-- 
2.43.0


From ca77eb7b238de6bd812f02208fdcb457359cbca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 14/86] fix: integer division truncated (AVG) and ended the
 process when dividing by zero

---
 Util/EvalMultitypeValue.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 32c12e5..07c2db3 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -932,11 +932,16 @@ EvalMultitypeValue
 	this->getSameNumericType(x);
 	if (datatype == xsd_integer)
 	{
-		ret_femv.datatype = xsd_integer;
-		ret_femv.int_value = int_value / x.int_value;
+		// the quotient of two integers is a decimal; dividing by zero is an error
+		if (x.int_value == 0)
+			return ret_femv;
+		ret_femv.datatype = xsd_decimal;
+		ret_femv.flt_value = (float)((double)int_value / x.int_value);
 	}
 	else if (datatype == xsd_decimal)
 	{
+		if (x.flt_value == 0)
+			return ret_femv;
 		ret_femv.datatype = xsd_decimal;
 		ret_femv.flt_value = flt_value / x.flt_value;
 	}
-- 
2.43.0


From 962bd372a57c54df6000bdf83e207314009c99ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 15/86] fix: a UNION branch without any of the selected
 variables lost its solutions

---
 Query/TempResult.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index d82c442..faf7ea4 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1553,7 +1553,6 @@ void TempResultSet::doProjection1(Varset &proj, TempResultSet &r, StringIndex *s
 	int r_str_cols = r_str_varset.getVarsetSize();
 
 	for (int i = 0; i < (int)this->results.size(); i++)
-		if (this->results[i].id_varset.hasCommonVar(r_id_varset) || this->results[i].str_varset.hasCommonVar(r_str_varset))
 		{
 			vector<int> r2this_id_pos = r_id_varset.mapTo(this->results[i].id_varset);
 			vector<int> r2this_str_pos = r_str_varset.mapTo(this->results[i].str_varset);
-- 
2.43.0


From 11010fd13095e0328278ec62f6792c1b959c94a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 16/86] fix: LIMIT 0 on a pattern of several triples ended the
 process

---
 Query/QueryTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index 71d2321..80b7ad3 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -769,7 +769,7 @@ int QueryTree::getLimitOfSolutions()
 		|| (this->order_by.empty() && this->projection_modifier == Modifier_Distinct))
 		return -1;
 	long long needed = (long long)this->limit + this->offset;
-	return needed > numeric_limits<int>::max() ? -1 : (int)needed;
+	return (needed == 0 || needed > numeric_limits<int>::max()) ? -1 : (int)needed;
 }
 
 /**
-- 
2.43.0


From 1bb4407df19bd2c911a554557a7c9f619993c8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 17/86] fix: SELECT DISTINCT merged solutions before they were
 grouped and aggregated

---
 Query/GeneralEvaluation.cpp | 10 +++++-----
 Query/QueryTree.cpp         | 11 +++++++++++
 Query/QueryTree.h           |  1 +
 3 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index d61d074..a2d9cc0 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -321,7 +321,7 @@ bool GeneralEvaluation::doQuery()
 		this->bgp_query_total = make_shared<BGPQuery>();
 	addAllTriples(this->query_tree.getGroupPattern());
 	bgp_query_total->EncodeBGPQuery(kvstore, vector<string>(), \
-			this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct);
+			this->query_tree.checkDistinctSolutions());
 
 	this->rewriting_evaluation_stack.clear();
 	this->rewriting_evaluation_stack.emplace_back();
@@ -482,7 +482,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					query_info.limit_ = true;
 					query_info.limit_num_ = this->query_tree.getLimitOfSolutions();
 				}
-				query_info.is_distinct_ = this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct;
+				query_info.is_distinct_ = this->query_tree.checkDistinctSolutions();
 				query_info.ordered_by_expressions_ = make_shared<vector<Order>>();
 				for(auto order_item:this->query_tree.getOrderVarVector())
 					query_info.ordered_by_expressions_->push_back(order_item);
@@ -585,7 +585,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 					bool curr_exist;
 					for (size_t k = 0; k < bgp_query_vec.size(); k++)
 					{
-						curr_exist = bgp_query_vec[k]->EncodeSmallBGPQuery(bgp_query_total.get(), kvstore, encode_varset[k], this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct);
+						curr_exist = bgp_query_vec[k]->EncodeSmallBGPQuery(bgp_query_total.get(), kvstore, encode_varset[k], this->query_tree.checkDistinctSolutions());
 						encode_constant_exist[k] = curr_exist;
 					}
 					#endif
@@ -895,7 +895,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						total_encode_varset.insert(total_encode_varset.end(), encode_varset[k].begin(), encode_varset[k].end());
 					for (size_t k = 0; k < bgp_query_vec.size(); k++)
 					{
-						bool curr_exist = bgp_query_vec[k]->EncodeSmallBGPQuery(bgp_query_total.get(), kvstore, encode_varset[k], this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct);
+						bool curr_exist = bgp_query_vec[k]->EncodeSmallBGPQuery(bgp_query_total.get(), kvstore, encode_varset[k], this->query_tree.checkDistinctSolutions());
 						encode_constant_exist[k] = curr_exist;
 					}
 					#endif
@@ -925,7 +925,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 						query_info.limit_num_ = this->query_tree.getLimitOfSolutions();
 					}
 
-					query_info.is_distinct_ = this->query_tree.getProjectionModifier() == QueryTree::ProjectionModifier::Modifier_Distinct;
+					query_info.is_distinct_ = this->query_tree.checkDistinctSolutions();
 
 					query_info.ordered_by_expressions_ = make_shared<vector<Order>>();
 					for(auto order_item:this->query_tree.getOrderVarVector())
diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index 80b7ad3..d7b6ad1 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -772,6 +772,17 @@ int QueryTree::getLimitOfSolutions()
 	return (needed == 0 || needed > numeric_limits<int>::max()) ? -1 : (int)needed;
 }
 
+/**
+	Check if equal solutions of the WHERE clause count once (SELECT DISTINCT), which does not
+	hold when the solutions are grouped or aggregated first.
+	
+	@return true if equal solutions may be merged.
+*/
+bool QueryTree::checkDistinctSolutions()
+{
+	return this->projection_modifier == Modifier_Distinct && this->group_by.empty() && !this->checkAtLeastOneAggregateFunction();
+}
+
 /**
 	Get the outermost group graph pattern of this query.
 	
diff --git a/Query/QueryTree.h b/Query/QueryTree.h
index d917936..896c2ad 100644
--- a/Query/QueryTree.h
+++ b/Query/QueryTree.h
@@ -187,6 +187,7 @@ public:
 	void setLimit(int _limit);
 	int getLimit();
 	int getLimitOfSolutions();
+	bool checkDistinctSolutions();
 
 	GroupPattern& getGroupPattern();
 	const GroupPattern &getGroupPattern() const {return this->group_pattern;}
-- 
2.43.0


From 7128977b58b5a6165d52e19d2a2f2dd3dd43cf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 18/86] fix: a subquery that aggregates or does not select all
 of its variables was evaluated as a plain group

---
 Query/GeneralEvaluation.cpp |  2 +-
 Query/QueryTree.cpp         | 16 ++++++++++++++++
 Query/QueryTree.h           |  1 +
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index a2d9cc0..07714df 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -1220,7 +1220,7 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 		{ 
             QueryTree& sub_query=group_pattern.sub_group_pattern[i].subquery;
             if(sub_query.getOffset()==0&&sub_query.getLimit()==-1&&sub_query.getGroupByVarset().empty()&&sub_query.getOrderVarVector().empty() \
-				&& sub_query.getProjectionModifier() == QueryTree::Modifier_None)
+				&& sub_query.getProjectionModifier() == QueryTree::Modifier_None && sub_query.checkProjectsAllVars())
 			{
                 cout<<"### Subtree (simp.) print start###\n";
 		    	sub_query.getGroupPattern().print(0);
diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index d7b6ad1..eef1232 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -783,6 +783,22 @@ bool QueryTree::checkDistinctSolutions()
 	return this->projection_modifier == Modifier_Distinct && this->group_by.empty() && !this->checkAtLeastOneAggregateFunction();
 }
 
+/**
+	Check if the query selects exactly the variables of its WHERE clause, unchanged.
+	
+	@return true if the results of the query are the solutions of its WHERE clause.
+*/
+bool QueryTree::checkProjectsAllVars()
+{
+	if (this->checkProjectionAsterisk())
+		return true;
+	for (auto &p : this->projection)
+		if (p.aggregate_type != ProjectionVar::None_type)
+			return false;
+	Varset proj_vars = this->getProjectionVarset();
+	return this->group_pattern.group_pattern_resultset_maximal_varset.belongTo(proj_vars);
+}
+
 /**
 	Get the outermost group graph pattern of this query.
 	
diff --git a/Query/QueryTree.h b/Query/QueryTree.h
index 896c2ad..f19662b 100644
--- a/Query/QueryTree.h
+++ b/Query/QueryTree.h
@@ -188,6 +188,7 @@ public:
 	int getLimit();
 	int getLimitOfSolutions();
 	bool checkDistinctSolutions();
+	bool checkProjectsAllVars();
 
 	GroupPattern& getGroupPattern();
 	const GroupPattern &getGroupPattern() const {return this->group_pattern;}
-- 
2.43.0


From 5051f4f1540ca80acdbfbd4658a32b4deb96028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:31 +0000
Subject: [PATCH 19/86] fix: aggregates without GROUP BY gave extra rows, or
 none for an empty pattern, and lost text after a blank

---
 Query/GeneralEvaluation.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 07714df..900a761 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -2181,8 +2181,17 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 					ss >> new_result0.result.back().str[proj2new[0] - new_result0_id_cols];
 				}
 			}
+			// Without GROUP BY, aggregates make all solutions one group, even if there are none
+			bool single_group = group2temp.empty() && !proj.empty();
+			for (auto &p : proj)
+				if (p.aggregate_type != ProjectionVar::Count_type && p.aggregate_type != ProjectionVar::Sum_type
+					&& p.aggregate_type != ProjectionVar::Avg_type && p.aggregate_type != ProjectionVar::Min_type
+					&& p.aggregate_type != ProjectionVar::Max_type && p.aggregate_type != ProjectionVar::Groupconcat_type
+					&& p.aggregate_type != ProjectionVar::Sample_type)
+					single_group = false;
+
 			// Exclusive with the if branch above
-			for (int begin = 0; begin < result0_size;)
+			for (int begin = 0; begin < result0_size || (single_group && new_result0.result.empty());)
 			{
 				// At the end of an iteration, begin will be set to end + 1
 				// The value of end will depend on GROUP BY conditions
@@ -2190,7 +2199,9 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 				if (group2temp.empty()) {
 					end = result0_size - 1;
 					int resultSz = result0_size;
-					if (proj.size() == 1 && proj[0].aggregate_type != ProjectionVar::None_type \
+					if (single_group)
+						resultSz = 1;
+					else if (proj.size() == 1 && proj[0].aggregate_type != ProjectionVar::None_type \
 					&& proj[0].aggregate_type != ProjectionVar::CompTree_type && proj[0].aggregate_type != ProjectionVar::Contains_type \
 					&& proj[0].aggregate_type != ProjectionVar::PFN_type)
 						resultSz = 1;
@@ -2248,6 +2259,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 						string sample_result;
 						numeric_sum.datatype = EvalMultitypeValue::xsd_integer;
 						numeric_sum.int_value = 0;
+						numeric_sum.deduceTermValue();
 						numeric_min.datatype = EvalMultitypeValue::xsd_long;
 						numeric_min.long_value = LONG_LONG_MAX;
 						numeric_max.datatype = EvalMultitypeValue::xsd_long;
@@ -2373,15 +2385,15 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 											groupconcat += proj[i].separator;
 										groupconcat += elem.substr(bIdx + 1, eIdx - bIdx - 1);
 									}
-									if (!groupconcat.empty())
-										groupconcat += "\"";
+									groupconcat += groupconcat.empty() ? "\"\"" : "\"";
 								}
 								if (proj[i].aggregate_type == ProjectionVar::Avg_type)
 								{
 									tmp.term_value = "\"" + to_string(count) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
 									tmp.deduceTypeValue();
 
-									numeric_sum = numeric_sum / tmp;
+									if (count > 0)
+										numeric_sum = numeric_sum / tmp;
 								}
 							}
 							else 	// No DISTINCT
@@ -2487,13 +2499,14 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 									count++;
 								}
 								if (proj[i].aggregate_type == ProjectionVar::Groupconcat_type)
-									groupconcat += "\"";
+									groupconcat += groupconcat.empty() ? "\"\"" : "\"";
 								else if (proj[i].aggregate_type == ProjectionVar::Avg_type)
 								{
 									tmp.term_value = "\"" + to_string(count) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
 									tmp.deduceTypeValue();
 
-									numeric_sum = numeric_sum / tmp;
+									if (count > 0)
+										numeric_sum = numeric_sum / tmp;
 								}
 							}
 						}
@@ -2550,7 +2563,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 							ss << "";
 
 						if (groupconcat.empty())
-							ss >> new_result0.result.back().str[proj2new[i] - new_result0_id_cols];
+							new_result0.result.back().str[proj2new[i] - new_result0_id_cols] = ss.str();
 						else
 							new_result0.result.back().str[proj2new[i] - new_result0_id_cols] = groupconcat;
 					}
-- 
2.43.0


From 61ae3e55e20cf5e9d04a0619079f6bcd0d886952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:05 +0000
Subject: [PATCH 20/86] fix: IN and NOT IN compare with every element of the
 list, not only the first

---
 Query/TempResult.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index faf7ea4..4112450 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1176,7 +1176,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		for (int i = 1; i < (int)root.children.size(); i++)
 		{
 			EvalMultitypeValue y;
-			y = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+			y = doComp(root.children[i], row, id_cols, kvstore, this_varset);
 			EvalMultitypeValue equal = (x == y);
 			if (i == 1)
 				ret_femv = equal;
@@ -1198,7 +1198,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		for (int i = 1; i < (int)root.children.size(); i++)
 		{
 			EvalMultitypeValue y;
-			y = doComp(root.children[1], row, id_cols, kvstore, this_varset);
+			y = doComp(root.children[i], row, id_cols, kvstore, this_varset);
 			EvalMultitypeValue inequal = (x != y);
 			if (i == 1)
 				ret_femv = inequal;
-- 
2.43.0


From b511b37db66ce5a766f66e7d603a11131f7c0942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:09 +0000
Subject: [PATCH 21/86] fix: logical operators, IF and FILTER use the effective
 boolean value and keep errors apart from false

---
 Query/TempResult.cpp        | 15 ++++++---------
 Util/EvalMultitypeValue.cpp | 35 +++++++++++++++++++++++------------
 Util/EvalMultitypeValue.h   |  1 +
 3 files changed, 30 insertions(+), 21 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 4112450..e8cdbba 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -753,11 +753,9 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 	{
 		EvalMultitypeValue lRes, rRes;
 		lRes = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		if (lRes.datatype == EvalMultitypeValue::xsd_boolean) {
-			if ((root.oprt == "||" && lRes.bool_value.getValue() == 1) || (root.oprt == "&&" && lRes.bool_value.getValue() != 1))
-				return lRes;
-		} else if (root.oprt == "&&")
-			return lRes;
+		// the right operand does not matter when the left one decides; an error on the left does not decide
+		if ((root.oprt == "||" && lRes.getEffectiveBoolean().getValue() == 1) || (root.oprt == "&&" && lRes.getEffectiveBoolean().getValue() == 0))
+			return root.oprt == "||" ? (lRes || lRes) : (lRes && lRes);
 		rRes = doComp(root.children[1], row, id_cols, kvstore, this_varset);
 
 		if (root.oprt == "||")
@@ -1216,10 +1214,9 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x, y, z;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		if ((x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::error_value)
-			|| x.datatype != EvalMultitypeValue::xsd_boolean)
+		if (x.getEffectiveBoolean().getValue() == 2)
 			return ret_femv;
-		if (x.datatype == EvalMultitypeValue::xsd_boolean && x.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+		if (x.getEffectiveBoolean().getValue() == 1)
 			ret_femv = doComp(root.children[1], row, id_cols, kvstore, this_varset);
 		else
 			ret_femv = doComp(root.children[2], row, id_cols, kvstore, this_varset);
@@ -1239,7 +1236,7 @@ void TempResult::doFilter(const CompTreeNode &filter, KVstore *kvstore, Varset &
 
     for (unsigned i = 0; save_num < limit_number && i < original_size-delete_num;) {
         EvalMultitypeValue ret_femv = doComp(filter, this->result[i], this_id_cols, kvstore, this_varset);
-        if (ret_femv.datatype == EvalMultitypeValue::xsd_boolean && ret_femv.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value) {
+        if (ret_femv.getEffectiveBoolean().getValue() == 1) {
             ++i;
             ++save_num;
         } else {
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 07c2db3..bed58f4 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -195,6 +195,26 @@ bool EvalMultitypeValue::isSimpleLiteral()
 	return false;
 }
 
+EvalMultitypeValue::EffectiveBooleanValue EvalMultitypeValue::getEffectiveBoolean()
+{
+	bool value;
+	if (datatype == xsd_boolean)
+		return bool_value;
+	else if (datatype == xsd_string || isSimpleLiteral())
+		value = !getStrContent().empty();
+	else if (datatype == xsd_integer)
+		value = int_value != 0;
+	else if (datatype == xsd_long)
+		value = long_value != 0;
+	else if (datatype == xsd_decimal || datatype == xsd_float)
+		value = flt_value != 0 && flt_value == flt_value;
+	else if (datatype == xsd_double)
+		value = dbl_value != 0 && dbl_value == dbl_value;
+	else
+		return EffectiveBooleanValue::error_value;
+	return value ? EffectiveBooleanValue::true_value : EffectiveBooleanValue::false_value;
+}
+
 void EvalMultitypeValue::convert2Type(EvalMultitypeValue::DataType to_type)
 {
 	if (this->datatype == xsd_integer && to_type == xsd_decimal)
@@ -234,10 +254,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (this->datatype != xsd_boolean)
-		return ret_femv;
-
-	ret_femv.bool_value = !this->bool_value;
+	ret_femv.bool_value = !this->getEffectiveBoolean();
 
 	ret_femv.deduceTermValue();
 	return ret_femv;
@@ -250,10 +267,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (this->datatype != xsd_boolean && x.datatype != xsd_boolean)
-		return ret_femv;
-
-	ret_femv.bool_value = (this->bool_value || x.bool_value);
+	ret_femv.bool_value = (this->getEffectiveBoolean() || x.getEffectiveBoolean());
 
 	ret_femv.deduceTermValue();
 	return ret_femv;
@@ -266,10 +280,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (this->datatype != xsd_boolean && x.datatype != xsd_boolean)
-		return ret_femv;
-
-	ret_femv.bool_value = (this->bool_value && x.bool_value);
+	ret_femv.bool_value = (this->getEffectiveBoolean() && x.getEffectiveBoolean());
 
 	ret_femv.deduceTermValue();
 	return ret_femv;
diff --git a/Util/EvalMultitypeValue.h b/Util/EvalMultitypeValue.h
index 2fa34a4..11a81fe 100644
--- a/Util/EvalMultitypeValue.h
+++ b/Util/EvalMultitypeValue.h
@@ -80,6 +80,7 @@ class EvalMultitypeValue
 		DateTime dt_value;
 
 		bool isSimpleLiteral();
+		EffectiveBooleanValue getEffectiveBoolean();	// SPARQL 17.2.2
 		void convert2Type(EvalMultitypeValue::DataType to_type);
 		void getSameNumericType (EvalMultitypeValue &x);
 		EvalMultitypeValue operator !();
-- 
2.43.0


From b936c8d17ff66c5b8465bffa6878445a5b911eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:40 +0000
Subject: [PATCH 22/86] fix: comparisons and arithmetic between xsd:long,
 xsd:decimal and xsd:float

---
 Query/TempResult.cpp        |  6 +++++
 Util/EvalMultitypeValue.cpp | 46 ++++++++++++++++++++++++-------------
 2 files changed, 36 insertions(+), 16 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index e8cdbba..fb43860 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -904,6 +904,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::xsd_integer ||
 							   x.datatype == EvalMultitypeValue::xsd_decimal ||
 							   x.datatype == EvalMultitypeValue::xsd_float ||
+							   x.datatype == EvalMultitypeValue::xsd_long ||
 							   x.datatype == EvalMultitypeValue::xsd_double);
 
 		return ret_femv;
@@ -1130,6 +1131,11 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 			ret_femv.datatype = EvalMultitypeValue::xsd_float;
 			ret_femv.flt_value = fabs(x.flt_value);
 		}
+		else if (x.datatype == EvalMultitypeValue::xsd_long)
+		{
+			ret_femv.datatype = EvalMultitypeValue::xsd_long;
+			ret_femv.long_value = llabs(x.long_value);
+		}
 		else if (x.datatype == EvalMultitypeValue::xsd_double)
 		{
 			ret_femv.datatype = EvalMultitypeValue::xsd_double;
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index bed58f4..8b1de3c 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -227,8 +227,10 @@ void EvalMultitypeValue::convert2Type(EvalMultitypeValue::DataType to_type)
 		this->dbl_value = this->int_value;
 	else if (this->datatype == xsd_decimal && to_type == xsd_double)
 		this->dbl_value = this->flt_value;
-	else if (this->datatype == xsd_decimal && to_type == xsd_long)
-		this->long_value = this->flt_value;
+	else if (this->datatype == xsd_decimal && to_type == xsd_float)
+		;	// both are kept in flt_value
+	else if (this->datatype == xsd_long && (to_type == xsd_decimal || to_type == xsd_float))
+		this->flt_value = this->long_value;
 	else if (this->datatype == xsd_long && to_type == xsd_double)
 		this->dbl_value = this->long_value;
 	else if (this->datatype == xsd_float && to_type == xsd_double)
@@ -238,9 +240,19 @@ void EvalMultitypeValue::convert2Type(EvalMultitypeValue::DataType to_type)
 	this->datatype = to_type;
 }
 
+// integer < long < decimal < float < double
+static int numericRank(EvalMultitypeValue::DataType type)
+{
+	if (type == EvalMultitypeValue::xsd_integer)
+		return 0;
+	if (type == EvalMultitypeValue::xsd_long)
+		return 1;
+	return type;
+}
+
 void EvalMultitypeValue::getSameNumericType (EvalMultitypeValue &x)
 {
-	DataType to_type = max(this->datatype, x.datatype);
+	DataType to_type = numericRank(this->datatype) < numericRank(x.datatype) ? x.datatype : this->datatype;
 	if (this->datatype != to_type)
 		this->convert2Type(to_type);
 	if (x.datatype != to_type)
@@ -731,8 +743,8 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_long && datatype != xsd_double) \
+			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_long && x.datatype != xsd_double))
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -754,7 +766,7 @@ EvalMultitypeValue
 	else if (datatype == xsd_long)
 	{
 		ret_femv.datatype = xsd_long;
-		ret_femv.flt_value = long_value + x.long_value;
+		ret_femv.long_value = long_value + x.long_value;
 	}
 	else if (datatype == xsd_double)
 	{
@@ -773,7 +785,7 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if (datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double)
+	if (datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_long && datatype != xsd_double)
 		return ret_femv;
 
 	if (datatype == xsd_integer)
@@ -852,8 +864,8 @@ EvalMultitypeValue
 		return ret_femv;
 	}
 	
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-		|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_long && datatype != xsd_double) \
+		|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_long && x.datatype != xsd_double))
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -894,8 +906,8 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_long && datatype != xsd_double) \
+			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_long && x.datatype != xsd_double))
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -936,8 +948,8 @@ EvalMultitypeValue
 	ret_femv.datatype = xsd_boolean;
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
-	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_double) \
-			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_double))
+	if ((datatype != xsd_integer && datatype != xsd_decimal && datatype != xsd_float && datatype != xsd_long && datatype != xsd_double) \
+			|| (x.datatype != xsd_integer && x.datatype != xsd_decimal && x.datatype != xsd_float && x.datatype != xsd_long && x.datatype != xsd_double))
 		return ret_femv;
 
 	this->getSameNumericType(x);
@@ -963,8 +975,10 @@ EvalMultitypeValue
 	}
 	else if (datatype == xsd_long)
 	{
-		ret_femv.datatype = xsd_long;
-		ret_femv.long_value = long_value / x.long_value;
+		if (x.long_value == 0)
+			return ret_femv;
+		ret_femv.datatype = xsd_decimal;
+		ret_femv.flt_value = (float)((double)long_value / x.long_value);
 	}
 	else if (datatype == xsd_double)
 	{
@@ -1175,7 +1189,7 @@ string EvalMultitypeValue::getRep()
 	else if (datatype == EvalMultitypeValue::xsd_integer)
 		ret = "\"" + to_string(int_value) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
 	else if (datatype == EvalMultitypeValue::xsd_long)
-		ret = "\"" + to_string(int_value) + "\"^^<http://www.w3.org/2001/XMLSchema#long>";
+		ret = "\"" + to_string(long_value) + "\"^^<http://www.w3.org/2001/XMLSchema#long>";
 	else if (datatype == EvalMultitypeValue::xsd_decimal)
 		ret = "\"" + to_string(flt_value) + "\"^^<http://www.w3.org/2001/XMLSchema#decimal>";
 	else if (datatype == EvalMultitypeValue::xsd_float)
-- 
2.43.0


From a61852bad71de538c5443c7da7d7d08924cf7c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 23/86] fix: STR, LANG, DATATYPE, UCASE, LCASE and the isX
 functions on every kind of term

---
 Query/TempResult.cpp        | 133 ++++++++++++------------------------
 Util/EvalMultitypeValue.cpp |  12 +++-
 Util/EvalMultitypeValue.h   |   1 +
 3 files changed, 54 insertions(+), 92 deletions(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index fb43860..b8074eb 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -858,17 +858,20 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		if (x.datatype == EvalMultitypeValue::literal)
-			ret_femv.str_value = x.str_value.substr(0, x.str_value.rfind('"') + 1);
-		else if (x.datatype == EvalMultitypeValue::iri)
+		if (x.isError())
+			return ret_femv;
+		if (x.datatype == EvalMultitypeValue::iri)
 			ret_femv.str_value = "\"" + x.str_value.substr(1, x.str_value.length() - 2) + "\"";
-		else if (x.datatype == EvalMultitypeValue::xsd_string)
-			ret_femv.str_value = x.str_value;
 		else {
-			x.deduceTermValue();
-			ret_femv.str_value = x.term_value;
+			// the lexical form, without language tag or datatype
+			if (x.term_value.empty())
+				x.deduceTermValue();
+			ret_femv.str_value = x.term_value.substr(0, x.term_value.rfind('"') + 1);
+			if (x.term_value.back() == '>')
+				ret_femv.str_value = x.term_value.substr(0, x.term_value.rfind("\"^^<") + 1);
 		}
 		ret_femv.datatype = EvalMultitypeValue::literal;
+		ret_femv.deduceTermValue();
 		return ret_femv;
 	}
 	else if (root.oprt == "ISIRI" || root.oprt == "ISURI")
@@ -876,6 +879,8 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		if (x.isError())
+			return ret_femv;
 		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::iri);
 
 		return ret_femv;
@@ -885,14 +890,9 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::literal ||
-							   x.datatype == EvalMultitypeValue::xsd_string ||
-							   x.datatype == EvalMultitypeValue::xsd_boolean ||
-							   x.datatype == EvalMultitypeValue::xsd_integer ||
-							   x.datatype == EvalMultitypeValue::xsd_decimal ||
-							   x.datatype == EvalMultitypeValue::xsd_float ||
-							   x.datatype == EvalMultitypeValue::xsd_double ||
-							   x.datatype == EvalMultitypeValue::xsd_datetime);
+		if (x.isError())
+			return ret_femv;
+		ret_femv.bool_value = (x.datatype != EvalMultitypeValue::iri);
 
 		return ret_femv;
 	}
@@ -901,6 +901,8 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
+		if (x.isError())
+			return ret_femv;
 		ret_femv.bool_value = (x.datatype == EvalMultitypeValue::xsd_integer ||
 							   x.datatype == EvalMultitypeValue::xsd_decimal ||
 							   x.datatype == EvalMultitypeValue::xsd_float ||
@@ -914,77 +916,33 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		if (x.datatype == EvalMultitypeValue::literal)
-		{
-			ret_femv.datatype = EvalMultitypeValue::literal;
-			int p = x.str_value.rfind('@');
-			if (p != -1)
-				ret_femv.str_value = "\"" + x.str_value.substr(p + 1) + "\"";
-			else
-				ret_femv.str_value = "";
-			return ret_femv;
-		}
-		else
+		if (x.isError() || x.datatype == EvalMultitypeValue::iri)
 			return ret_femv;
+		ret_femv.datatype = EvalMultitypeValue::literal;
+		ret_femv.str_value = x.getLangTag();
+		if (ret_femv.str_value.empty())
+			ret_femv.str_value = "\"\"";
+		ret_femv.deduceTermValue();
+		return ret_femv;
 	}
 	else if (root.oprt == "DATATYPE")
 	{
 		EvalMultitypeValue x;
 
 		x = doComp(root.children[0], row, id_cols, kvstore, this_varset);
-		if (x.datatype == EvalMultitypeValue::rdf_term)
-		{
-			size_t p = x.str_value.rfind("^^");
-			if (p != string::npos)
-			{
-				ret_femv.datatype = EvalMultitypeValue::iri;
-				ret_femv.term_value = x.str_value.substr(p + 2);
-			}
-		}
-		else if (x.datatype == EvalMultitypeValue::literal)
-		{
-			ret_femv.datatype = EvalMultitypeValue::iri;
-			size_t p = x.str_value.rfind('@');
-			if (p != string::npos)
-				ret_femv.term_value = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#langString>";
-			else
-				ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#string>";
-		}
-		else if (x.datatype == EvalMultitypeValue::xsd_string)
-		{
-			ret_femv.datatype = EvalMultitypeValue::iri;
-			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#string>";
-		}
-		else if (x.datatype == EvalMultitypeValue::xsd_boolean)
-		{
-			ret_femv.datatype = EvalMultitypeValue::iri;
-			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#boolean>";
-		}
-		else if (x.datatype == EvalMultitypeValue::xsd_integer)
-		{
-			ret_femv.datatype = EvalMultitypeValue::iri;
-			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#integer>";
-		}
-		else if (x.datatype == EvalMultitypeValue::xsd_decimal)
-		{
-			ret_femv.datatype = EvalMultitypeValue::iri;
-			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#decimal>";
-		}
-		else if (x.datatype == EvalMultitypeValue::xsd_float)
-		{
-			ret_femv.datatype = EvalMultitypeValue::iri;
-			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#float>";
-		}
-		else if (x.datatype == EvalMultitypeValue::xsd_double)
-		{
-			ret_femv.datatype = EvalMultitypeValue::iri;
-			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#double>";
-		}
-		else if (x.datatype == EvalMultitypeValue::xsd_datetime)
-		{
-			ret_femv.datatype = EvalMultitypeValue::iri;
-			ret_femv.term_value = "<http://www.w3.org/2001/XMLSchema#dateTime>";
-		}
+		if (x.isError() || x.datatype == EvalMultitypeValue::iri)
+			return ret_femv;
+		if (x.term_value.empty())
+			x.deduceTermValue();
+		size_t p = x.term_value.rfind("\"^^<");
+		ret_femv.datatype = EvalMultitypeValue::iri;
+		if (x.term_value.back() == '>' && p != string::npos)
+			ret_femv.str_value = x.term_value.substr(p + 3);
+		else if (x.datatype == EvalMultitypeValue::literal && x.getLangTag() != "")
+			ret_femv.str_value = "<http://www.w3.org/1999/02/22-rdf-syntax-ns#langString>";
+		else
+			ret_femv.str_value = "<http://www.w3.org/2001/XMLSchema#string>";
+		ret_femv.deduceTermValue();
 
 		return ret_femv;
 	}
@@ -1072,15 +1030,12 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		else if (x.datatype == EvalMultitypeValue::literal)
 		{
 			ret_femv.datatype = EvalMultitypeValue::literal;
-			int p = x.str_value.rfind('@');
-			if (p != -1)
-			{
-				ret_femv.str_value = x.str_value.substr(0, p);	// ADD lang tag!
-				langTag = x.str_value.substr(p + 1);
-			}
-			else
-				ret_femv.str_value = x.str_value;
+			size_t p = x.str_value.rfind('"') + 1;
+			ret_femv.str_value = x.str_value.substr(0, p);
+			langTag = x.str_value.substr(p);
 		}
+		else
+			return ret_femv;
 
 		if (root.oprt == "UCASE")
 			transform(ret_femv.str_value.begin(), ret_femv.str_value.end(), \
@@ -1088,8 +1043,8 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		else 	// Builtin_lcase_type
 			transform(ret_femv.str_value.begin(), ret_femv.str_value.end(), \
 				ret_femv.str_value.begin(), ::tolower);
-		if (langTag != "")
-			ret_femv.str_value += "@" + langTag;
+		ret_femv.str_value += langTag;
+		ret_femv.deduceTermValue();
 
 		return ret_femv;
 	}
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 8b1de3c..64897c8 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -195,6 +195,11 @@ bool EvalMultitypeValue::isSimpleLiteral()
 	return false;
 }
 
+bool EvalMultitypeValue::isError()
+{
+	return datatype == xsd_boolean && bool_value.value == EffectiveBooleanValue::error_value;
+}
+
 EvalMultitypeValue::EffectiveBooleanValue EvalMultitypeValue::getEffectiveBoolean()
 {
 	bool value;
@@ -1128,9 +1133,10 @@ string EvalMultitypeValue::getLangTag()
 {
 	if (datatype == EvalMultitypeValue::literal)
 	{
-		int p = str_value.rfind('@');
-		if (p != -1)
-			return "\"" + str_value.substr(p + 1) + "\"";
+		// the tag follows the closing quote; '@' may also be part of the text
+		size_t p = str_value.rfind('"');
+		if (p != string::npos && p + 1 < str_value.length() && str_value[p + 1] == '@')
+			return "\"" + str_value.substr(p + 2) + "\"";
 		else
 			return "";
 	}
diff --git a/Util/EvalMultitypeValue.h b/Util/EvalMultitypeValue.h
index 11a81fe..d26e9a2 100644
--- a/Util/EvalMultitypeValue.h
+++ b/Util/EvalMultitypeValue.h
@@ -80,6 +80,7 @@ class EvalMultitypeValue
 		DateTime dt_value;
 
 		bool isSimpleLiteral();
+		bool isError();	// unbound or the result of an error
 		EffectiveBooleanValue getEffectiveBoolean();	// SPARQL 17.2.2
 		void convert2Type(EvalMultitypeValue::DataType to_type);
 		void getSameNumericType (EvalMultitypeValue &x);
-- 
2.43.0


From 97a927baf3b0d4e6a3527a0e8c21e23dadc4277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:10 +0000
Subject: [PATCH 24/86] fix: BIND and SELECT expressions keep the term as it is
 and leave errors unbound

---
 Query/GeneralEvaluation.cpp |  4 ++--
 Util/EvalMultitypeValue.cpp | 42 ++++++++++---------------------------
 2 files changed, 13 insertions(+), 33 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 900a761..8d9a947 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -2573,12 +2573,12 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 							for (int j = begin; j <= end; j++) {
 								new_result0.result[j].str[proj2new[i] - new_result0_id_cols] = \
 									result0.doComp(proj[i].comp_tree_root, result0.result[j], result0_id_cols, kvstore, \
-									result0Varset).term_value;
+									result0Varset).getRep();
 							}
 						} else {
 							new_result0.result.back().str[proj2new[i] - new_result0_id_cols] = \
 								result0.doComp(proj[i].comp_tree_root, result0.result[begin], result0_id_cols, kvstore, \
-								result0Varset).term_value;
+								result0Varset).getRep();
 						}
 					}
 					else if (proj[i].aggregate_type == ProjectionVar::Contains_type)
diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 64897c8..7e08018 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1035,7 +1035,10 @@ void EvalMultitypeValue::deduceTermValue()
 			ss << '0';
 		ss << dt_value.date[5] << "\"^^<http://www.w3.org/2001/XMLSchema#dateTime>";
 		ss >> term_value;
-	} else
+	}
+	else if (datatype == xsd_string)
+		term_value = str_value + "^^<http://www.w3.org/2001/XMLSchema#string>";
+	else
 		term_value = str_value;
 }
 
@@ -1180,34 +1183,11 @@ string EvalMultitypeValue::getStrContent()
 
 string EvalMultitypeValue::getRep()
 {
-	string ret;
-	if (datatype == EvalMultitypeValue::rdf_term || datatype == EvalMultitypeValue::iri)
-		ret = term_value;
-	else if (datatype == EvalMultitypeValue::xsd_string || datatype == EvalMultitypeValue::literal)
-		ret = str_value;
-	else if (datatype == EvalMultitypeValue::xsd_boolean)
-	{
-		if (bool_value.getValue() == 0 || bool_value.getValue() == 2)
-			ret = "\"false\"^^<http://www.w3.org/2001/XMLSchema#boolean>";
-		else
-			ret = "\"true\"^^<http://www.w3.org/2001/XMLSchema#boolean>";
-	}
-	else if (datatype == EvalMultitypeValue::xsd_integer)
-		ret = "\"" + to_string(int_value) + "\"^^<http://www.w3.org/2001/XMLSchema#integer>";
-	else if (datatype == EvalMultitypeValue::xsd_long)
-		ret = "\"" + to_string(long_value) + "\"^^<http://www.w3.org/2001/XMLSchema#long>";
-	else if (datatype == EvalMultitypeValue::xsd_decimal)
-		ret = "\"" + to_string(flt_value) + "\"^^<http://www.w3.org/2001/XMLSchema#decimal>";
-	else if (datatype == EvalMultitypeValue::xsd_float)
-		ret = "\"" + to_string(flt_value) + "\"^^<http://www.w3.org/2001/XMLSchema#float>";
-	else if (datatype == EvalMultitypeValue::xsd_double)
-		ret = "\"" + to_string(dbl_value) + + "\"^^<http://www.w3.org/2001/XMLSchema#double>";
-	else if (datatype == EvalMultitypeValue::xsd_datetime)
-	{
-		ret = "\"" + to_string(dt_value.date[0]) + "-" + to_string(dt_value.date[1]) + "-" + \
-			to_string(dt_value.date[2]) + "T" + to_string(dt_value.date[3]) + ":" + \
-			to_string(dt_value.date[4]) + ":" + to_string(dt_value.date[5]) + \
-			"\"^^<http://www.w3.org/2001/XMLSchema#dateTime>";
-	}
-	return ret;
+	// unbound
+	if (isError())
+		return "";
+	// a term keeps its own spelling
+	if (term_value.empty())
+		deduceTermValue();
+	return term_value;
 }
\ No newline at end of file
-- 
2.43.0


From 064d1c8c7c4f1bf35e1129fab418917680610288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:33 +0000
Subject: [PATCH 25/86] fix: operators of equal precedence group from the left

---
 Parser/QueryParser.cpp | 32 +++++++++++++-------------------
 1 file changed, 13 insertions(+), 19 deletions(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index adff36e..f6af0ce 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -652,8 +652,7 @@ void QueryParser::parseSelectAggregateFunction(SPARQLParser::ExpressionContext *
 	relations in an expression), in SELECT/FILTER/ORDER BY.
 
 	@param root pointer to the expression or var's context.
-	@param oper_pos the starting position to look at for the current node, 
-	used to branch out the right child node.
+	@param oper_pos the position of the operator of the current node, -1 for the last one of its level.
 	@param curr_node pointer to the current CompTree node.
 */
 void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, CompTreeNode &curr_node)
@@ -752,23 +751,18 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 		}
 		else
 		{
-			int rightmostOprtPos = root->children.size() - 2;
-			if (oper_pos < rightmostOprtPos)
-			{
-				// int new_oper_pos = oper_pos + 2;
-				curr_node.oprt = root->children[oper_pos + 2]->getText();
-				curr_node.val = "";
-				// curr_node.lchild = new CompTreeNode;
-				// curr_node.rchild = new CompTreeNode;
-				// buildCompTree(root->children[oper_pos + 1], -1, curr_node.lchild);
-				// buildCompTree(root, oper_pos + 2, curr_node.rchild);
-				curr_node.children.push_back(CompTreeNode());
-				curr_node.children.push_back(CompTreeNode());
-				buildCompTree(root->children[oper_pos + 1], -1, curr_node.children[0]);
-				buildCompTree(root, oper_pos + 2, curr_node.children[1]);
-			}
-			else 	// oper_pos == rightmostOprtPos, the last operator on this level has been handled
-				buildCompTree(root->children[oper_pos + 1], -1, curr_node);
+			// operators of one level group from the left: the last one is the root
+			if (oper_pos == -1)
+				oper_pos = root->children.size() - 2;
+			curr_node.oprt = root->children[oper_pos]->getText();
+			curr_node.val = "";
+			curr_node.children.push_back(CompTreeNode());
+			curr_node.children.push_back(CompTreeNode());
+			if (oper_pos > 1)
+				buildCompTree(root, oper_pos - 2, curr_node.children[0]);
+			else
+				buildCompTree(root->children[0], -1, curr_node.children[0]);
+			buildCompTree(root->children[oper_pos + 1], -1, curr_node.children[1]);
 		}
 	}
 	else 	// >= 3, even #children, must be NOT IN or function call
-- 
2.43.0


From f4b68949b8c0b2a7a589e588c8dc9499b9bf3a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 26/86] fix: malformed or large numbers and short dates in a
 literal do not end the query

---
 Util/EvalMultitypeValue.cpp | 44 +++++++++++++++++++------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index 7e08018..d5070ab 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -1076,10 +1076,12 @@ void EvalMultitypeValue::deduceTypeValue()
 				datatype = EvalMultitypeValue::xsd_string;
 				str_value = contentStr;
 			} else if (sufStr == "boolean") {
-				if (contentStr == "\"true\"")
+				if (contentStr == "\"true\"" || contentStr == "\"1\"")
 					bool_value = EvalMultitypeValue::EffectiveBooleanValue::true_value;
-				else if (contentStr == "\"false\"")
+				else if (contentStr == "\"false\"" || contentStr == "\"0\"")
 					bool_value = EvalMultitypeValue::EffectiveBooleanValue::false_value;
+				else
+					datatype = EvalMultitypeValue::rdf_term;
 			} else if (sufStr == "dateTime" || sufStr == "date") {
 				datatype = EvalMultitypeValue::xsd_datetime;
 				vector<float> date;
@@ -1097,36 +1099,36 @@ void EvalMultitypeValue::deduceTypeValue()
 							decimal = true;
 						nextP++;
 					}
-					string sub_value =  contentStr.substr(p, nextP - p + 1);
-					std::cout << i << " -> "<< p << "," << nextP << "," << sub_value << endl;
 					// fix bug: if nextP == p substr is empty, stof will throw invalid_argument
 					if (nextP <= p) 
 						break;
-					std::cout << stof(sub_value) << endl;
 					date.emplace_back(stof(contentStr.substr(p, nextP - p + 1)));
 					p = nextP;
-					if (p >= contentLen && i < 5)
-						return;
 				}
+				date.resize(6, 0);
 				dt_value = EvalMultitypeValue::DateTime(date);
 			} else {
 				contentStr = contentStr.substr(1, contentLen - 2);
-				if (sufStr == "integer") {
-					datatype = EvalMultitypeValue::xsd_integer;
-					int_value = stoi(contentStr);
-				} else if (sufStr == "long") {
-					datatype = EvalMultitypeValue::xsd_long;
-					long_value = stoll(contentStr);
-				} else if (sufStr == "decimal") {
-					datatype = EvalMultitypeValue::xsd_decimal;
-					flt_value = stof(contentStr);
-				} else if (sufStr == "float") {
-					datatype = EvalMultitypeValue::xsd_float;
-					flt_value = stof(contentStr);
+				// a malformed number is a literal without a value
+				const char *begin = contentStr.c_str();
+				char *end = NULL;
+				if (sufStr == "integer" || sufStr == "long") {
+					errno = 0;
+					long_value = strtoll(begin, &end, 10);
+					int_value = long_value;
+					if (errno == 0 && end != begin && *end == '\0')
+						datatype = sufStr == "long" || int_value != long_value ? EvalMultitypeValue::xsd_long : EvalMultitypeValue::xsd_integer;
+				} else if (sufStr == "decimal" || sufStr == "float") {
+					flt_value = strtof(begin, &end);
+					if (end != begin && *end == '\0')
+						datatype = sufStr == "decimal" ? EvalMultitypeValue::xsd_decimal : EvalMultitypeValue::xsd_float;
 				} else if (sufStr == "double") {
-					datatype = EvalMultitypeValue::xsd_double;
-					dbl_value = stod(contentStr);
+					dbl_value = strtod(begin, &end);
+					if (end != begin && *end == '\0')
+						datatype = EvalMultitypeValue::xsd_double;
 				}
+				if (datatype == EvalMultitypeValue::xsd_boolean)
+					datatype = EvalMultitypeValue::rdf_term;
 			}
 		}
 	}
-- 
2.43.0


From e6e45612cc0c1316ebb0517676e250cca7b37773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 27/86] fix: LANGMATCHES follows basic language range filtering

---
 Query/TempResult.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index b8074eb..2d714b2 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1110,7 +1110,14 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 		if (!y.isSimpleLiteral())
 			return ret_femv;
 
-		ret_femv.bool_value = ((x.str_value == y.str_value) || (x.str_value.length() > 0 && y.str_value == "\"*\""));
+		// a range matches its subtags, without regard to case; "*" matches every tag that is not empty
+		string tag = x.getStrContent(), range = y.getStrContent();
+		transform(tag.begin(), tag.end(), tag.begin(), ::tolower);
+		transform(range.begin(), range.end(), range.begin(), ::tolower);
+		if (range == "*")
+			ret_femv.bool_value = !tag.empty();
+		else
+			ret_femv.bool_value = (tag == range || tag.compare(0, range.length() + 1, range + "-") == 0);
 
 		return ret_femv;
 	}
-- 
2.43.0


From 26451c95d9cb60a354120e4c9f719af8ae5d3de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 28/86] fix: REGEX matches with the flags it is given, not with
 uninitialised ones

---
 Query/RegexExpression.h | 4 ++--
 Query/TempResult.cpp    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Query/RegexExpression.h b/Query/RegexExpression.h
index 831d746..10daa54 100644
--- a/Query/RegexExpression.h
+++ b/Query/RegexExpression.h
@@ -19,10 +19,10 @@ class RegexExpression
 	public:
 		bool compile(std::string &pRegexStr, std::string &flag)
 		{
-			regex::flag_type flags;
+			regex::flag_type flags = regex::ECMAScript;
 			for (int i = 0; i < (int)flag.length(); i++)
 				if (flag[i] == 'i')
-					flags = regex::icase;
+					flags |= regex::icase;
 
 			try {
 				pattern.assign(pRegexStr, flags);
diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 2d714b2..4b4dcf5 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -824,7 +824,7 @@ TempResult::doComp(const CompTreeNode &root, ResultPair &row, int id_cols, KVsto
 
 		RegexExpression re;
 		if (!re.compile(p, f))
-			ret_femv.bool_value = EvalMultitypeValue::EffectiveBooleanValue::false_value;
+			return ret_femv;
 		else
 			ret_femv.bool_value = re.match(t);
 
-- 
2.43.0


From efdba0ba60c97d9da1c673b5385a0a015c99dd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:40 +0000
Subject: [PATCH 29/86] fix: the difference of two dateTimes does not depend on
 uninitialised memory

---
 Util/EvalMultitypeValue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Util/EvalMultitypeValue.cpp b/Util/EvalMultitypeValue.cpp
index d5070ab..7120b52 100644
--- a/Util/EvalMultitypeValue.cpp
+++ b/Util/EvalMultitypeValue.cpp
@@ -831,7 +831,7 @@ EvalMultitypeValue
 	ret_femv.bool_value = EffectiveBooleanValue::error_value;
 
 	if (datatype == xsd_datetime && x.datatype == xsd_datetime) {
-		std::tm t1, t2;
+		std::tm t1 = {}, t2 = {};
 		t1.tm_year = dt_value.date[0] - 1900;
 		t1.tm_mon = dt_value.date[1] - 1;
 		t1.tm_mday = dt_value.date[2];
-- 
2.43.0


From 7480dd981491aa28f4d48ba0e2a5b516f07586c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:34 +0000
Subject: [PATCH 30/86] fix: the counts of a database are written with its
 triples, not ahead of them

---
 Database/Database.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 688ac96..9f3a929 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1567,7 +1567,7 @@ bool Database::unload()
 	if (if_loaded)
 	{
 		this->saveDBInfoFile();
-		// this->saveStatisticsInfoFile();
+		this->saveStatisticsInfoFile();
 		this->writeIDinfo();
 		this->initIDinfo();
 	}
@@ -1586,6 +1586,7 @@ bool Database::save()
 {
 	this->kvstore->flush();
 	this->saveDBInfoFile();
+	this->saveStatisticsInfoFile();
 	this->saveIDinfo();
 
 	this->stringindex->flush();
@@ -1925,11 +1926,6 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 		{
 			this->query_cache->clear();
 			cout << "QueryCache cleared" << endl;
-			if (general_evaluation.getQueryTree().getUpdateType() != QueryTree::Not_Update)
-			{
-				this->saveStatisticsInfoFile();
-				this->saveDBInfoFile();
-			}
 		}
 		if (txn == nullptr)
 			pthread_rwlock_unlock(&(this->update_lock));
@@ -3832,7 +3828,6 @@ Database::batch_insert(std::string _rdf_file, bool _is_restore, shared_ptr<Trans
 
 	delete[] triple_array;
 	triple_array = NULL;
-	this->saveStatisticsInfoFile();
 	long tv_insert = Util::get_cur_time();
 	cout << "after batch insert, used " << (tv_insert - tv_load) << "ms." << endl;
 
@@ -3883,7 +3878,6 @@ Database::batch_remove(std::string _rdf_file, bool _is_restore, shared_ptr<Trans
 
 	delete[] triple_array;
 	triple_array = NULL;
-	this->saveStatisticsInfoFile();
 	long tv_remove = Util::get_cur_time();
 	cout << "after batch remove, used " << (tv_remove - tv_load) << "ms." << endl;
 	cout << "remove rdf triples done." << endl;
@@ -4867,20 +4861,16 @@ bool Database::saveStatisticsInfoFile()
 	string filepath = this->getStorePath() + "/" + this->statistics_info_file;
 	if (Util::file_exist(filepath) == false)
 	{
-		cout << "the statistics file is not exist" << endl;
 		Util::create_file(filepath);
 	}
 	file.open(filepath);
-	int i = 0;
 	for (auto &kv : this->umap)
 	{
 		// cout<<"first:"<<kv.first<<",second:"<<kv.second<<endl;
 		file << kv.first << "@@" << kv.second << endl;
-		i++;
 	}
 	file.flush();
 	file.close();
-	cout << "save the statistics file successfully! total " << i << " records have been saved!" << endl;
 	return true;
 }
 
-- 
2.43.0


From a1a3cd49837e4b48c7a5ac3060da06002a79ddc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:40 +0000
Subject: [PATCH 31/86] fix: the string index on disk changes only when the
 database is saved

---
 StringIndex/StringIndex.cpp | 37 ++++++++++++++++++++++---------------
 StringIndex/StringIndex.h   | 10 +++++++++-
 2 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/StringIndex/StringIndex.cpp b/StringIndex/StringIndex.cpp
index fcb264f..5fd99b8 100644
--- a/StringIndex/StringIndex.cpp
+++ b/StringIndex/StringIndex.cpp
@@ -271,16 +271,9 @@ void StringIndexFile::change(unsigned id, KVstore &kv_store)
 		while (this->num <= id)
 		{
 			(*this->index_table).push_back(IndexInfo());
-
-			fseek(this->index_file, sizeof(unsigned) + this->num * (sizeof(long) + sizeof(unsigned)), SEEK_SET);
-			fwrite(&(*this->index_table)[this->num].offset, sizeof(long), 1, this->index_file);
-			fwrite(&(*this->index_table)[this->num].length, sizeof(unsigned), 1, this->index_file);
-
+			this->dirty.insert(this->num);
 			this->num++;
 		}
-
-		fseek(this->index_file, 0, SEEK_SET);
-		fwrite(&this->num, sizeof(unsigned), 1, this->index_file);
 	}
 
 	string str;
@@ -295,13 +288,11 @@ void StringIndexFile::change(unsigned id, KVstore &kv_store)
 	(*this->index_table)[id].length = str.length();
 	this->empty_offset += (*this->index_table)[id].length;
 
-	fseek(this->index_file, sizeof(unsigned) + id * (sizeof(long) + sizeof(unsigned)), SEEK_SET);
-	fwrite(&(*this->index_table)[id].offset, sizeof(long), 1, this->index_file);
-	fwrite(&(*this->index_table)[id].length, sizeof(unsigned), 1, this->index_file);
+	// the index file keeps the state of the last flush() until the next one
+	this->dirty.insert(id);
 
 	fseek(this->value_file, (*this->index_table)[id].offset, SEEK_SET);
 	fwrite(str.c_str(), sizeof(char), (*this->index_table)[id].length, this->value_file);
-    fflush(this->index_file);
 	fflush(this->value_file);
 	//if(id == 9)
 	//{
@@ -312,6 +303,23 @@ void StringIndexFile::change(unsigned id, KVstore &kv_store)
 	//}
 }
 
+void StringIndexFile::flush()
+{
+	if (this->index_file == NULL || this->dirty.empty())
+		return;
+
+	fseek(this->index_file, 0, SEEK_SET);
+	fwrite(&this->num, sizeof(unsigned), 1, this->index_file);
+	for (unsigned id : this->dirty)
+	{
+		fseek(this->index_file, sizeof(unsigned) + id * (sizeof(long) + sizeof(unsigned)), SEEK_SET);
+		fwrite(&(*this->index_table)[id].offset, sizeof(long), 1, this->index_file);
+		fwrite(&(*this->index_table)[id].length, sizeof(unsigned), 1, this->index_file);
+	}
+	fflush(this->index_file);
+	this->dirty.clear();
+}
+
 void StringIndexFile::disable(unsigned id)
 {
 	//DEBUG: for predicate, -1 when invalid
@@ -319,9 +327,8 @@ void StringIndexFile::disable(unsigned id)
 
 	(*this->index_table)[id] = IndexInfo();
 
-	fseek(this->index_file, sizeof(unsigned) + id * (sizeof(long) + sizeof(unsigned)), SEEK_SET);
-	fwrite(&(*this->index_table)[id].offset, sizeof(long), 1, this->index_file);
-	fwrite(&(*this->index_table)[id].length, sizeof(unsigned), 1, this->index_file);
+	// the index file keeps the state of the last flush() until the next one
+	this->dirty.insert(id);
 }
 
 //----------------------------------------------------------------------------------------------------------------------------------------------------
diff --git a/StringIndex/StringIndex.h b/StringIndex/StringIndex.h
index 84ee874..557f0fd 100644
--- a/StringIndex/StringIndex.h
+++ b/StringIndex/StringIndex.h
@@ -37,6 +37,8 @@ class StringIndexFile
 				IndexInfo(long _offset = 0, unsigned _length = 0):offset(_offset), length(_length){}
 		};
 		std::vector<IndexInfo>* index_table;
+		//ids whose entry in the index file is out of date
+		std::set<unsigned> dirty;
 		// unsigned buffer_size;
 		// char *buffer;
 		// char *UncompressBuffer;
@@ -73,6 +75,7 @@ class StringIndexFile
 		}
 		~StringIndexFile()
 		{
+			this->flush();
 			if (this->index_file != NULL)
 				fclose(this->index_file);
 			if (this->value_file != NULL)
@@ -124,6 +127,7 @@ class StringIndexFile
 
 		void change(unsigned id, KVstore &kv_store);
 		void disable(unsigned id);
+		void flush();
 };
 
 class StringIndex
@@ -157,7 +161,11 @@ class StringIndex
 
 		void flush()
 		{
-			//nothing to do here
+			latch.lockExclusive();
+			entity.flush();
+			literal.flush();
+			predicate.flush();
+			latch.unlock();
 		}
 
 		// void emptyBuffer()
-- 
2.43.0


From d29955defa552be08099434393875326e6646057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 32/86] fix: an update inside a transaction takes effect
 exactly when it changes what the transaction sees

---
 Database/Database.cpp | 27 ++++++++++++++++-----------
 Util/Version.cpp      | 24 ++++++++++++++++++++++++
 2 files changed, 40 insertions(+), 11 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 9f3a929..9922141 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3316,6 +3316,13 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		cout << "getExclusiveLocks failed, Abort. TID:" << this_thread::get_id() << endl;
 		return false;
 	}
+	if (txn != nullptr)
+	{
+		txn->WriteSetInsert(IDTriple(_sub_id, _pre_id, _obj_id));
+		// a version records only updates that change what the transaction sees
+		if (this->exist_triple(_sub_id, _pre_id, _obj_id, txn))
+			return false;
+	}
 
 	// if this is not a new triple, return directly (in case of no transaction)
 	if (txn == nullptr)
@@ -3340,16 +3347,11 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 	if (txn != nullptr)
 	{
 
-		if (ret)
-		{
-			// cout << "WriteSetInsert......." << endl;
-			txn->WriteSetInsert(IDTriple(_sub_id, _pre_id, _obj_id));
-		}
-		else
+		// the locks are released when the transaction ends
+		if (!ret)
 		{
 			cerr << "insert failed" << endl;
 			txn->SetState(TransactionState::ABORTED);
-			(this->kvstore)->ReleaseExclusiveLock(_sub_id, _pre_id, _obj_id, txn);
 			return false;
 		}
 	}
@@ -3384,6 +3386,12 @@ bool Database::removeTriple(const TripleWithObjType &_triple, vector<unsigned> *
 		txn->SetState(TransactionState::ABORTED);
 		return false;
 	}
+	if (txn != nullptr)
+	{
+		txn->WriteSetInsert(IDTriple(_sub_id, _pre_id, _obj_id));
+		if (!this->exist_triple(_sub_id, _pre_id, _obj_id, txn))
+			return false;
+	}
 
 	if (txn == nullptr)
 	{
@@ -3402,13 +3410,10 @@ bool Database::removeTriple(const TripleWithObjType &_triple, vector<unsigned> *
 	bool ret = (this->kvstore)->updateTupleslist_remove(_sub_id, _pre_id, _obj_id, txn);
 	if (txn != nullptr)
 	{
-		if (ret)
-			txn->WriteSetInsert(IDTriple(_sub_id, _pre_id, _obj_id));
-		else
+		if (!ret)
 		{
 			cout << " updateTupleslist_remove failed ..............................................." << endl;
 			txn->SetState(TransactionState::ABORTED);
-			(this->kvstore)->ReleaseExclusiveLock(_sub_id, _pre_id, _obj_id, txn);
 			return false;
 		}
 	}
diff --git a/Util/Version.cpp b/Util/Version.cpp
index cf2481c..1fe5b43 100644
--- a/Util/Version.cpp
+++ b/Util/Version.cpp
@@ -56,6 +56,18 @@ void Version::expand(int num)
 
 void Version::add(VData value)
 {
+	// adding back what this version removed leaves it as it was
+	for(unsigned i = 0; i < data[2]; i++)
+	{
+		unsigned pos = data[0]-1-2*i, last = data[0]-1-2*(data[2]-1);
+		if(data[pos] == value.first && data[pos-1] == value.second)
+		{
+			data[pos] = data[last];
+			data[pos-1] = data[last-1];
+			data[2]--;
+			return;
+		}
+	}
 	expand(1);
 	data[2*data[1]+4] = value.first;
 	data[2*data[1]+5] = value.second;
@@ -64,6 +76,18 @@ void Version::add(VData value)
 
 void Version::remove(VData value)
 {
+	// removing what this version added leaves it as it was
+	for(unsigned i = 0; i < data[1]; i++)
+	{
+		unsigned pos = 4+2*i, last = 4+2*(data[1]-1);
+		if(data[pos] == value.first && data[pos+1] == value.second)
+		{
+			data[pos] = data[last];
+			data[pos+1] = data[last+1];
+			data[1]--;
+			return;
+		}
+	}
 	expand(1);
 	data[data[0]-1-2*data[2]] = value.first;
 	data[data[0]-2-2*data[2]] = value.second;
-- 
2.43.0


From cec335383a6a579a0f7a480b87adef9de4dd7367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 33/86] fix: a removal inside a transaction does not reset the
 id counters

---
 Database/Database.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 9922141..a6de043 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3771,7 +3771,7 @@ Database::remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _triple_num,
 	// BETTER+TODO:this will require us to lock all when remove process not ends(in multiple threads cases)
 	// An considerable idea is to check if empty after every triple removed
 	// if(this->vstree->isEmpty())
-	if (this->triples_num == 0)
+	if (txn == nullptr && this->triples_num == 0)
 	{
 		this->resetIDinfo();
 	}
-- 
2.43.0


From 62d6622db386cf1177a24a7449256916d081ed94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 34/86] fix: a checkpoint counts the triples it merges, frees
 each id once and drops the terms of rolled back transactions

---
 Database/Database.cpp    | 6 ++++++
 Database/Txn_manager.cpp | 5 ++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index a6de043..4c3132c 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4718,7 +4718,11 @@ bool Database::getFinalResult(SPARQLquery &_sparql_q, ResultSet &_result_set)
 void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids, vector<unsigned> &obj_literal_ids, vector<unsigned> &pre_ids)
 {
 	// vector<unsigned> sub_ids , obj_ids, obj_literal_ids, pre_ids;
+	for (auto &_pre_id : pre_ids)
+		this->triples_num -= this->kvstore->getPredicateDegree(_pre_id);
 	(this->kvstore)->IVArrayVacuum(sub_ids, obj_ids, obj_literal_ids, pre_ids);
+	for (auto &_pre_id : pre_ids)
+		this->triples_num += this->kvstore->getPredicateDegree(_pre_id);
 	vector<TYPE_ENTITY_LITERAL_ID> vertices, predicates;
 	// update
 	int sub_degree, obj_degree, pre_degree;
@@ -4803,6 +4807,8 @@ void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids
 		{
 			string pre_str = this->kvstore->getPredicateByID(_pre_id);
 			// cerr << "pre_str" << pre_str << endl;
+			if (pre_str == "")
+				continue;
 			this->kvstore->subIDByPredicate(pre_str);
 			this->kvstore->subPredicateByID(_pre_id);
 			this->freePredicateID(_pre_id);
diff --git a/Database/Txn_manager.cpp b/Database/Txn_manager.cpp
index 67a8cfd..410adb1 100644
--- a/Database/Txn_manager.cpp
+++ b/Database/Txn_manager.cpp
@@ -217,8 +217,9 @@ int Txn_manager::Abort(txn_id_t TID)
 	//writelog(log_str);
 	txn->SetState(TransactionState::ABORTED);
 	txn->SetEndTime(Util::get_cur_time());
+	// the checkpoint drops the terms that only this transaction used
+	add_dirty_keys(txn);
 	checkpoint_lock.unlock();
-	//add_dirty_keys(txn);
 	return 0;
 }
 
@@ -298,6 +299,8 @@ void Txn_manager::Checkpoint()
 	//cout << "obj_literal_ids.size(): " << obj_literal_ids.size() << endl;
  	if(db != nullptr)
 		db->VersionClean(sub_ids, obj_ids, obj_literal_ids, pre_ids);
+	for (auto &keys : DirtyKeys)
+		keys.clear();
 	checkpoint_lock.unlock();
 }
 
-- 
2.43.0


From a9f8b996231060e254a95aa65d8071e8502d49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:44 +0000
Subject: [PATCH 35/86] fix: a SERIALIZABLE transaction that has read an old
 version does not write

---
 KVstore/IVArray/IVEntry.cpp | 12 +++++++++++-
 Util/Transaction.h          |  5 +++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/KVstore/IVArray/IVEntry.cpp b/KVstore/IVArray/IVEntry.cpp
index a322f92..c0d0df9 100644
--- a/KVstore/IVArray/IVEntry.cpp
+++ b/KVstore/IVArray/IVEntry.cpp
@@ -300,6 +300,16 @@ IVEntry::ReadVersion(VDataSet &AddSet, VDataSet &DelSet, shared_ptr<Transaction>
 				return false;
 			}
 		}
+		else if(ret == 0 && vList.back()->get_end_ts() != txn->GetTID()){
+			// a newer version exists or is being written: the older one may be read,
+			// but only by a transaction that writes nothing
+			if(txn->HasWritten()){
+				rwLatch.unlock();
+				assert(latched == false);
+				return false;
+			}
+			txn->SetOldRead();
+		}
 		getProperVersion(txn->GetTID(), AddSet, DelSet);
 		rwLatch.unlock();
 	}
@@ -438,7 +448,7 @@ IVEntry::GetExclusiveLatch(shared_ptr<Transaction> txn, bool has_read)
 	}
 	else if(txn->GetIsolationLevelType() == IsolationLevelType::SERIALIZABLE)
 	{
-		if(!checkVersion(TID, false)){
+		if(txn->HasOldRead() || !checkVersion(TID, false)){
 			rwLatch.unlock();
 			return 0;
 		}
diff --git a/Util/Transaction.h b/Util/Transaction.h
index 07b139f..d0f26c4 100644
--- a/Util/Transaction.h
+++ b/Util/Transaction.h
@@ -44,6 +44,7 @@ private:
 	
 	int wait_lock_time;
 	int retry_times;
+	bool old_read = false; //has read a version that is not the latest (SERIALIZABLE only)
 public:
 	int update_num;
 	enum class IDType{SUBJECT, PREDICATE, OBJECT};
@@ -83,6 +84,10 @@ public:
 	//void DependedTXNSetInsert(TYPE_TXN_ID _TID);
 	//void DependedTXNSetDelete(TYPE_TXN_ID _TID);
 	
+	void SetOldRead() { this->old_read = true; }
+	bool HasOldRead() const { return this->old_read; }
+	bool HasWritten() const { return !this->WriteSet[0].empty(); }
+
 	IsolationLevelType GetIsolationLevelType() {return this->isolation; }
 	
 	//inline TripleSet& Get_AddSet() { return this->AddSet; }
-- 
2.43.0


From b2932a2b62ba582663c5a4f23b36fbd15381c831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 36/86] fix: the end of an RDF file without a final newline was
 parsed twice

---
 Parser/TurtleParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 54096d9..2af9fdf 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -46,8 +46,8 @@ bool TurtleParser::Lexer::doRead(char& c)
    while (in) {
       readBufferStart=readBuffer;
       in.read(readBuffer,readBufferSize);
-      if (!in.gcount()) return false;
       readBufferEnd=readBufferStart+in.gcount();
+      if (!in.gcount()) return false;
 
       if (readBufferStart<readBufferEnd) {
          c=*(readBufferStart++);
-- 
2.43.0


From 9aec0b70a9df42c3d592fba18a513b5b4fe16660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 37/86] fix: a quote inside a long string literal swallowed the
 next character

---
 Parser/TurtleParser.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 2af9fdf..8361ffb 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -213,11 +213,13 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexLongString(std::string& token
    char c;
    while (read(c)) {
       if (c=='\"') {
-         if (!read(c)) break;
-         if (c!='\"') { token+='\"'; continue; }
-         if (!read(c)) break;
-         if (c!='\"') { token+="\"\""; continue; }
-         return String;
+         unsigned quotes=1;
+         bool eof=false;
+         while ((quotes<3)&&(!(eof=!read(c)))&&(c=='\"')) quotes++;
+         if (quotes==3) return String;
+         if (eof) break;
+         // Not the end, c is the character behind the quotes
+         token.append(quotes,'\"');
       }
       if (c=='\\') {
          lexEscape(token);
-- 
2.43.0


From ca6ab250a59e292998ebf067ef124b40549c4191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 38/86] fix: escaped characters beyond U+FFFF were encoded in
 three bytes

---
 Parser/TurtleParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 8361ffb..78df0c1 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -165,6 +165,11 @@ static string encodeUtf8(unsigned code)
    } else if (code<0x800) {
       result+=static_cast<char>(0xc0 | (0x1f & (code >> 6)));
       result+=static_cast<char>(0x80 | (0x3f & code));
+   } else if (code>=0x10000) {
+      result+=static_cast<char>(0xf0 | (0x07 & (code >> 18)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >> 12)));
+      result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
+      result+=static_cast<char>(0x80 | (0x3f & code));
    } else {
       result+=static_cast<char>(0xe0 | (0x0f & (code >> 12)));
       result+=static_cast<char>(0x80 | (0x3f & (code >>  6)));
-- 
2.43.0


From 22e3b256d2ad7a42d63d4705077fc389b0b0cfb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 39/86] fix: accept the escapes \b, \f and \' in RDF files

---
 Parser/TurtleParser.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 78df0c1..dba71e4 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -188,6 +188,9 @@ void TurtleParser::Lexer::lexEscape(std::string& token)
       if (c=='t') { token+='\t'; return; }
       if (c=='n') { token+='\n'; return; }
       if (c=='r') { token+='\r'; return; }
+      if (c=='b') { token+='\b'; return; }
+      if (c=='f') { token+='\f'; return; }
+      if (c=='\'') { token+='\''; return; }
       if (c=='\"') { token+='\"'; return; }
       if (c=='>') { token+='>'; return; }
       if (c=='\\') { token+='\\'; return; }
-- 
2.43.0


From bdc348abe2db6d3f228f53f4e7685c72e21625b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 40/86] fix: an integer directly before the final dot of a
 statement was not parsed

---
 Parser/TurtleParser.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index dba71e4..355b765 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -86,8 +86,16 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexNumber(std::string& token,cha
 
       // Dot?
       if (c=='.') {
-         token+=c;
-         if (!read(c)) break;
+         bool digits=(!token.empty())&&(token.back()>='0')&&(token.back()<='9');
+         bool eof=!read(c);
+         if (digits&&(eof||(((c<'0')||(c>'9'))&&(c!='e')&&(c!='E')))) {
+            // The dot ends the statement
+            if (!eof) unread();
+            putBack=Dot;
+            return Integer;
+         }
+         token+='.';
+         if (eof) break;
          // Second number block
          while ((c>='0')&&(c<='9')) {
             token+=c;
-- 
2.43.0


From be90522914fb92cb9da595aa2443e1e7b5e98719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:44 +0000
Subject: [PATCH 41/86] fix: accept repeated semicolons in RDF files

---
 Parser/TurtleParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 355b765..0e37f8b 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -714,6 +714,7 @@ void TurtleParser::parsePredicateObjectList(const string& subject,string& predic
          case Lexer::A: additionalPredicate="http://www.w3.org/1999/02/22-rdf-syntax-ns#type"; break;
          case Lexer::Colon: lexer.unget(token,additionalPredicate); parseQualifiedName("",additionalPredicate); break;
          case Lexer::Name: if (additionalPredicate=="_") parseError("blank nodes not allowed as predicate"); parseQualifiedName(additionalPredicate,additionalPredicate); break;
+         case Lexer::Semicolon: continue;
          default: lexer.unget(token,additionalPredicate); return;
       }
 
-- 
2.43.0


From aee100ed6d4ecc9d13c6a4c864bf5ebc62d6edc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:02 +0000
Subject: [PATCH 42/86] fix: accept single-quoted string literals in RDF files

---
 Parser/TurtleParser.cpp | 21 +++++++++++----------
 Parser/TurtleParser.h   |  2 +-
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index 0e37f8b..d68fa25 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -223,19 +223,19 @@ void TurtleParser::Lexer::lexEscape(std::string& token)
    throw Exception(msg.str());
 }
 //---------------------------------------------------------------------------
-TurtleParser::Lexer::Token TurtleParser::Lexer::lexLongString(std::string& token)
-   // Lex a long string, first """ already consumed
+TurtleParser::Lexer::Token TurtleParser::Lexer::lexLongString(std::string& token,char quote)
+   // Lex a long string, the first three quotes already consumed
 {
    char c;
    while (read(c)) {
-      if (c=='\"') {
+      if (c==quote) {
          unsigned quotes=1;
          bool eof=false;
-         while ((quotes<3)&&(!(eof=!read(c)))&&(c=='\"')) quotes++;
+         while ((quotes<3)&&(!(eof=!read(c)))&&(c==quote)) quotes++;
          if (quotes==3) return String;
          if (eof) break;
          // Not the end, c is the character behind the quotes
-         token.append(quotes,'\"');
+         token.append(quotes,quote);
       }
       if (c=='\\') {
          lexEscape(token);
@@ -252,6 +252,7 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexLongString(std::string& token
 TurtleParser::Lexer::Token TurtleParser::Lexer::lexString(std::string& token,char c)
    // Lex a string
 {
+   char quote=c;
    token.resize(0);
 
    // Check the next character
@@ -262,18 +263,18 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::lexString(std::string& token,cha
    }
 
    // Another quote?
-   if (c=='\"') {
+   if (c==quote) {
       if (!read(c))
          return String;
-      if (c=='\"')
-         return lexLongString(token);
+      if (c==quote)
+         return lexLongString(token,quote);
       unread();
       return String;
    }
 
    // Process normally
    while (true) {
-      if (c=='\"') return String;
+      if (c==quote) return String;
       if (c=='\\') {
          lexEscape(token);
       } else {
@@ -353,7 +354,7 @@ TurtleParser::Lexer::Token TurtleParser::Lexer::next(std::string& token)
                throw Exception(msg.str());
             }
             return Type;
-         case '\"': return lexString(token,c);
+         case '\"': case '\'': return lexString(token,c);
          case '<': return lexURI(token,c);
          default:
             if (((c>='A')&&(c<='Z'))||((c>='a')&&(c<='z'))||(c=='_')) { // XXX unicode!
diff --git a/Parser/TurtleParser.h b/Parser/TurtleParser.h
index c7e9daa..3fb275c 100644
--- a/Parser/TurtleParser.h
+++ b/Parser/TurtleParser.h
@@ -72,7 +72,7 @@ class TurtleParser
       /// Lex an escape sequence
       void lexEscape(std::string& token);
       /// Lex a long string
-      Token lexLongString(std::string& token);
+      Token lexLongString(std::string& token,char quote);
       /// Lex a string
       Token lexString(std::string& token,char c);
       /// Lex a URI
-- 
2.43.0


From 4433eb5449eb5582e933ecea274ce2ff2be9c5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 43/86] fix: accept the escape \\ in SPARQL string literals

---
 Parser/SPARQL/SPARQL.g4          | 2 +-
 Parser/SPARQL/SPARQLLexer.cpp    | 2 +-
 Parser/SPARQL/SPARQLLexer.interp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/Parser/SPARQL/SPARQL.g4 b/Parser/SPARQL/SPARQL.g4
index 953c78a..7082e6d 100644
--- a/Parser/SPARQL/SPARQL.g4
+++ b/Parser/SPARQL/SPARQL.g4
@@ -424,7 +424,7 @@ STRING_LITERAL1 : '\'' ( ~('\u0027' | '\u005C' | '\u000A' | '\u000D') | ECHAR )*
 STRING_LITERAL2 : '"'  ( ~('\u0022' | '\u005C' | '\u000A' | '\u000D') | ECHAR )* '"' ;
 STRING_LITERAL_LONG1 : '\'\'\'' ( ( '\'' | '\'\'' )? ( [^'\\] | ECHAR ) )* '\'\'\'' ;
 STRING_LITERAL_LONG2 : '"""' ( ( '"' | '""' )? ( [^"\\] | ECHAR ) )* '"""' ;
-ECHAR : '\\' ('t' | 'b' | 'n' | 'r' | 'f' | '"' | '\'') ;
+ECHAR : '\\' ('t' | 'b' | 'n' | 'r' | 'f' | '\\' | '"' | '\'') ;
 NIL : '(' WS* ')' ;
 WS : (' ' | '\t' | '\r' | '\n') ->skip ;
 ANON : '[' WS* ']' ;
diff --git a/Parser/SPARQL/SPARQLLexer.cpp b/Parser/SPARQL/SPARQLLexer.cpp
index 726f414..5871297 100644
--- a/Parser/SPARQL/SPARQLLexer.cpp
+++ b/Parser/SPARQL/SPARQLLexer.cpp
@@ -531,7 +531,7 @@ SPARQLLexer::Initializer::Initializer() {
     0x4, 0x2, 0x2d, 0x2d, 0x2f, 0x2f, 0x6, 0x2, 0xc, 0xc, 0xf, 0xf, 0x29, 
     0x29, 0x5e, 0x5e, 0x6, 0x2, 0xc, 0xc, 0xf, 0xf, 0x24, 0x24, 0x5e, 0x5e, 
     0x5, 0x2, 0x29, 0x29, 0x5e, 0x5e, 0x60, 0x60, 0x5, 0x2, 0x24, 0x24, 
-    0x5e, 0x5e, 0x60, 0x60, 0x9, 0x2, 0x24, 0x24, 0x29, 0x29, 0x64, 0x64, 
+    0x5e, 0x5e, 0x60, 0x60, 0xa, 0x2, 0x24, 0x24, 0x29, 0x29, 0x5e, 0x5e, 0x64, 0x64, 
     0x68, 0x68, 0x70, 0x70, 0x74, 0x74, 0x76, 0x76, 0x5, 0x2, 0xb, 0xc, 
     0xf, 0xf, 0x22, 0x22, 0x6, 0x2, 0x32, 0x3b, 0xb9, 0xb9, 0x302, 0x371, 
     0x2041, 0x2042, 0x7, 0x2, 0x2f, 0x2f, 0x32, 0x3b, 0xb9, 0xb9, 0x302, 
diff --git a/Parser/SPARQL/SPARQLLexer.interp b/Parser/SPARQL/SPARQLLexer.interp
index e3b15e2..182c8bd 100644
--- a/Parser/SPARQL/SPARQLLexer.interp
+++ b/Parser/SPARQL/SPARQLLexer.interp
@@ -661,4 +661,4 @@ mode names:
 DEFAULT_MODE
 
 atn:
-[3, 24715, 42794, 33075, 47597, 16764, 15335, 30598, 22884, 2, 209, 1950, 8, 1, 4, 2, 9, 2, 4, 3, 9, 3, 4, 4, 9, 4, 4, 5, 9, 5, 4, 6, 9, 6, 4, 7, 9, 7, 4, 8, 9, 8, 4, 9, 9, 9, 4, 10, 9, 10, 4, 11, 9, 11, 4, 12, 9, 12, 4, 13, 9, 13, 4, 14, 9, 14, 4, 15, 9, 15, 4, 16, 9, 16, 4, 17, 9, 17, 4, 18, 9, 18, 4, 19, 9, 19, 4, 20, 9, 20, 4, 21, 9, 21, 4, 22, 9, 22, 4, 23, 9, 23, 4, 24, 9, 24, 4, 25, 9, 25, 4, 26, 9, 26, 4, 27, 9, 27, 4, 28, 9, 28, 4, 29, 9, 29, 4, 30, 9, 30, 4, 31, 9, 31, 4, 32, 9, 32, 4, 33, 9, 33, 4, 34, 9, 34, 4, 35, 9, 35, 4, 36, 9, 36, 4, 37, 9, 37, 4, 38, 9, 38, 4, 39, 9, 39, 4, 40, 9, 40, 4, 41, 9, 41, 4, 42, 9, 42, 4, 43, 9, 43, 4, 44, 9, 44, 4, 45, 9, 45, 4, 46, 9, 46, 4, 47, 9, 47, 4, 48, 9, 48, 4, 49, 9, 49, 4, 50, 9, 50, 4, 51, 9, 51, 4, 52, 9, 52, 4, 53, 9, 53, 4, 54, 9, 54, 4, 55, 9, 55, 4, 56, 9, 56, 4, 57, 9, 57, 4, 58, 9, 58, 4, 59, 9, 59, 4, 60, 9, 60, 4, 61, 9, 61, 4, 62, 9, 62, 4, 63, 9, 63, 4, 64, 9, 64, 4, 65, 9, 65, 4, 66, 9, 66, 4, 67, 9, 67, 4, 68, 9, 68, 4, 69, 9, 69, 4, 70, 9, 70, 4, 71, 9, 71, 4, 72, 9, 72, 4, 73, 9, 73, 4, 74, 9, 74, 4, 75, 9, 75, 4, 76, 9, 76, 4, 77, 9, 77, 4, 78, 9, 78, 4, 79, 9, 79, 4, 80, 9, 80, 4, 81, 9, 81, 4, 82, 9, 82, 4, 83, 9, 83, 4, 84, 9, 84, 4, 85, 9, 85, 4, 86, 9, 86, 4, 87, 9, 87, 4, 88, 9, 88, 4, 89, 9, 89, 4, 90, 9, 90, 4, 91, 9, 91, 4, 92, 9, 92, 4, 93, 9, 93, 4, 94, 9, 94, 4, 95, 9, 95, 4, 96, 9, 96, 4, 97, 9, 97, 4, 98, 9, 98, 4, 99, 9, 99, 4, 100, 9, 100, 4, 101, 9, 101, 4, 102, 9, 102, 4, 103, 9, 103, 4, 104, 9, 104, 4, 105, 9, 105, 4, 106, 9, 106, 4, 107, 9, 107, 4, 108, 9, 108, 4, 109, 9, 109, 4, 110, 9, 110, 4, 111, 9, 111, 4, 112, 9, 112, 4, 113, 9, 113, 4, 114, 9, 114, 4, 115, 9, 115, 4, 116, 9, 116, 4, 117, 9, 117, 4, 118, 9, 118, 4, 119, 9, 119, 4, 120, 9, 120, 4, 121, 9, 121, 4, 122, 9, 122, 4, 123, 9, 123, 4, 124, 9, 124, 4, 125, 9, 125, 4, 126, 9, 126, 4, 127, 9, 127, 4, 128, 9, 128, 4, 129, 9, 129, 4, 130, 9, 130, 4, 131, 9, 131, 4, 132, 9, 132, 4, 133, 9, 133, 4, 134, 9, 134, 4, 135, 9, 135, 4, 136, 9, 136, 4, 137, 9, 137, 4, 138, 9, 138, 4, 139, 9, 139, 4, 140, 9, 140, 4, 141, 9, 141, 4, 142, 9, 142, 4, 143, 9, 143, 4, 144, 9, 144, 4, 145, 9, 145, 4, 146, 9, 146, 4, 147, 9, 147, 4, 148, 9, 148, 4, 149, 9, 149, 4, 150, 9, 150, 4, 151, 9, 151, 4, 152, 9, 152, 4, 153, 9, 153, 4, 154, 9, 154, 4, 155, 9, 155, 4, 156, 9, 156, 4, 157, 9, 157, 4, 158, 9, 158, 4, 159, 9, 159, 4, 160, 9, 160, 4, 161, 9, 161, 4, 162, 9, 162, 4, 163, 9, 163, 4, 164, 9, 164, 4, 165, 9, 165, 4, 166, 9, 166, 4, 167, 9, 167, 4, 168, 9, 168, 4, 169, 9, 169, 4, 170, 9, 170, 4, 171, 9, 171, 4, 172, 9, 172, 4, 173, 9, 173, 4, 174, 9, 174, 4, 175, 9, 175, 4, 176, 9, 176, 4, 177, 9, 177, 4, 178, 9, 178, 4, 179, 9, 179, 4, 180, 9, 180, 4, 181, 9, 181, 4, 182, 9, 182, 4, 183, 9, 183, 4, 184, 9, 184, 4, 185, 9, 185, 4, 186, 9, 186, 4, 187, 9, 187, 4, 188, 9, 188, 4, 189, 9, 189, 4, 190, 9, 190, 4, 191, 9, 191, 4, 192, 9, 192, 4, 193, 9, 193, 4, 194, 9, 194, 4, 195, 9, 195, 4, 196, 9, 196, 4, 197, 9, 197, 4, 198, 9, 198, 4, 199, 9, 199, 4, 200, 9, 200, 4, 201, 9, 201, 4, 202, 9, 202, 4, 203, 9, 203, 4, 204, 9, 204, 4, 205, 9, 205, 4, 206, 9, 206, 4, 207, 9, 207, 4, 208, 9, 208, 4, 209, 9, 209, 4, 210, 9, 210, 4, 211, 9, 211, 4, 212, 9, 212, 4, 213, 9, 213, 4, 214, 9, 214, 4, 215, 9, 215, 4, 216, 9, 216, 4, 217, 9, 217, 4, 218, 9, 218, 4, 219, 9, 219, 4, 220, 9, 220, 4, 221, 9, 221, 4, 222, 9, 222, 4, 223, 9, 223, 4, 224, 9, 224, 4, 225, 9, 225, 4, 226, 9, 226, 4, 227, 9, 227, 4, 228, 9, 228, 4, 229, 9, 229, 4, 230, 9, 230, 4, 231, 9, 231, 4, 232, 9, 232, 4, 233, 9, 233, 4, 234, 9, 234, 3, 2, 3, 2, 3, 3, 3, 3, 3, 4, 3, 4, 3, 5, 3, 5, 3, 6, 3, 6, 3, 7, 3, 7, 3, 8, 3, 8, 3, 9, 3, 9, 3, 10, 3, 10, 3, 11, 3, 11, 3, 12, 3, 12, 3, 13, 3, 13, 3, 14, 3, 14, 3, 15, 3, 15, 3, 16, 3, 16, 3, 17, 3, 17, 3, 18, 3, 18, 3, 19, 3, 19, 3, 19, 3, 20, 3, 20, 3, 20, 3, 21, 3, 21, 3, 22, 3, 22, 3, 22, 3, 23, 3, 23, 3, 24, 3, 24, 3, 25, 3, 25, 3, 25, 3, 26, 3, 26, 3, 26, 3, 27, 3, 27, 3, 28, 3, 28, 3, 28, 3, 29, 3, 29, 3, 29, 3, 29, 3, 29, 3, 30, 3, 30, 3, 30, 3, 30, 3, 30, 3, 30, 3, 31, 3, 31, 3, 31, 3, 31, 3, 32, 3, 32, 3, 32, 3, 32, 3, 32, 3, 33, 3, 33, 3, 33, 3, 33, 3, 33, 3, 33, 3, 34, 3, 34, 3, 34, 3, 35, 3, 35, 3, 35, 3, 35, 3, 36, 3, 36, 3, 36, 3, 36, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 38, 3, 38, 3, 38, 3, 39, 3, 39, 3, 39, 3, 39, 3, 39, 3, 39, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 41, 3, 41, 3, 41, 3, 41, 3, 41, 3, 41, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 44, 3, 44, 3, 44, 3, 44, 3, 44, 3, 44, 3, 45, 3, 45, 3, 45, 3, 46, 3, 46, 3, 46, 3, 46, 3, 46, 3, 47, 3, 47, 3, 47, 3, 47, 3, 47, 3, 48, 3, 48, 3, 48, 3, 48, 3, 48, 3, 48, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 53, 3, 53, 3, 53, 3, 53, 3, 54, 3, 54, 3, 54, 3, 54, 3, 54, 3, 54, 3, 55, 3, 55, 3, 55, 3, 55, 3, 55, 3, 55, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 57, 3, 57, 3, 57, 3, 57, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 59, 3, 59, 3, 59, 3, 59, 3, 59, 3, 60, 3, 60, 3, 60, 3, 60, 3, 60, 3, 61, 3, 61, 3, 61, 3, 61, 3, 61, 3, 61, 3, 62, 3, 62, 3, 62, 3, 62, 3, 62, 3, 63, 3, 63, 3, 63, 3, 64, 3, 64, 3, 64, 3, 64, 3, 65, 3, 65, 3, 65, 3, 65, 3, 66, 3, 66, 3, 66, 3, 66, 3, 66, 3, 67, 3, 67, 3, 67, 3, 68, 3, 68, 3, 68, 3, 68, 3, 68, 3, 69, 3, 69, 3, 69, 3, 69, 3, 69, 3, 70, 3, 70, 3, 70, 3, 70, 3, 70, 3, 71, 3, 71, 3, 71, 3, 71, 3, 71, 3, 71, 3, 72, 3, 72, 3, 72, 3, 72, 3, 72, 3, 72, 3, 73, 3, 73, 3, 73, 3, 73, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 75, 3, 75, 3, 75, 3, 75, 3, 75, 3, 75, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 77, 3, 77, 3, 77, 3, 77, 3, 77, 3, 77, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 80, 3, 80, 3, 80, 3, 80, 3, 81, 3, 81, 3, 81, 3, 81, 3, 81, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 85, 3, 85, 3, 85, 3, 85, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 89, 3, 89, 3, 89, 3, 89, 3, 89, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 91, 3, 91, 3, 91, 3, 91, 3, 91, 3, 92, 3, 92, 3, 92, 3, 92, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 94, 3, 94, 3, 94, 3, 94, 3, 94, 3, 94, 3, 95, 3, 95, 3, 95, 3, 95, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 102, 3, 102, 3, 102, 3, 102, 3, 102, 3, 102, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 105, 3, 105, 3, 105, 3, 105, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 108, 3, 108, 3, 108, 3, 108, 3, 108, 3, 108, 3, 109, 3, 109, 3, 109, 3, 109, 3, 109, 3, 109, 3, 110, 3, 110, 3, 110, 3, 110, 3, 110, 3, 110, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 112, 3, 112, 3, 112, 3, 112, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 115, 3, 115, 3, 115, 3, 115, 3, 115, 3, 115, 3, 116, 3, 116, 3, 116, 3, 116, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 118, 3, 118, 3, 118, 3, 118, 3, 118, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 120, 3, 120, 3, 120, 3, 120, 3, 120, 3, 120, 3, 121, 3, 121, 3, 121, 3, 122, 3, 122, 3, 122, 3, 122, 3, 122, 3, 122, 3, 123, 3, 123, 3, 123, 3, 123, 3, 123, 3, 124, 3, 124, 3, 124, 3, 124, 3, 124, 3, 124, 3, 125, 3, 125, 3, 125, 3, 125, 3, 125, 3, 125, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 128, 3, 128, 3, 128, 3, 128, 3, 128, 3, 128, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 130, 3, 130, 3, 130, 3, 130, 3, 130, 3, 130, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 141, 3, 141, 3, 141, 3, 141, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 145, 3, 145, 3, 145, 3, 146, 3, 146, 3, 146, 3, 146, 3, 146, 3, 146, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 148, 3, 148, 3, 148, 3, 148, 3, 149, 3, 149, 3, 149, 3, 149, 3, 149, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 152, 3, 152, 3, 152, 3, 152, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 156, 3, 156, 3, 156, 3, 156, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 161, 3, 161, 3, 161, 3, 161, 3, 161, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 167, 3, 167, 3, 167, 3, 167, 3, 168, 3, 168, 3, 168, 3, 168, 3, 168, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 173, 3, 173, 7, 173, 1607, 10, 173, 12, 173, 14, 173, 1610, 11, 173, 3, 173, 3, 173, 3, 174, 5, 174, 1615, 10, 174, 3, 174, 3, 174, 3, 175, 3, 175, 3, 175, 3, 176, 3, 176, 3, 176, 3, 176, 3, 176, 5, 176, 1627, 10, 176, 3, 176, 3, 176, 7, 176, 1631, 10, 176, 12, 176, 14, 176, 1634, 11, 176, 3, 176, 5, 176, 1637, 10, 176, 3, 177, 3, 177, 3, 177, 3, 178, 3, 178, 3, 178, 3, 179, 3, 179, 6, 179, 1647, 10, 179, 13, 179, 14, 179, 1648, 3, 179, 3, 179, 6, 179, 1653, 10, 179, 13, 179, 14, 179, 1654, 7, 179, 1657, 10, 179, 12, 179, 14, 179, 1660, 11, 179, 3, 180, 6, 180, 1663, 10, 180, 13, 180, 14, 180, 1664, 3, 181, 7, 181, 1668, 10, 181, 12, 181, 14, 181, 1671, 11, 181, 3, 181, 3, 181, 6, 181, 1675, 10, 181, 13, 181, 14, 181, 1676, 3, 182, 6, 182, 1680, 10, 182, 13, 182, 14, 182, 1681, 3, 182, 3, 182, 7, 182, 1686, 10, 182, 12, 182, 14, 182, 1689, 11, 182, 3, 182, 3, 182, 3, 182, 6, 182, 1694, 10, 182, 13, 182, 14, 182, 1695, 3, 182, 3, 182, 6, 182, 1700, 10, 182, 13, 182, 14, 182, 1701, 3, 182, 5, 182, 1705, 10, 182, 3, 183, 3, 183, 3, 183, 3, 184, 3, 184, 3, 184, 3, 185, 3, 185, 3, 185, 3, 186, 3, 186, 3, 186, 3, 187, 3, 187, 3, 187, 3, 188, 3, 188, 3, 188, 3, 189, 3, 189, 5, 189, 1727, 10, 189, 3, 189, 6, 189, 1730, 10, 189, 13, 189, 14, 189, 1731, 3, 190, 3, 190, 3, 190, 7, 190, 1737, 10, 190, 12, 190, 14, 190, 1740, 11, 190, 3, 190, 3, 190, 3, 191, 3, 191, 3, 191, 7, 191, 1747, 10, 191, 12, 191, 14, 191, 1750, 11, 191, 3, 191, 3, 191, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 5, 192, 1761, 10, 192, 3, 192, 3, 192, 5, 192, 1765, 10, 192, 7, 192, 1767, 10, 192, 12, 192, 14, 192, 1770, 11, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 5, 193, 1783, 10, 193, 3, 193, 3, 193, 5, 193, 1787, 10, 193, 7, 193, 1789, 10, 193, 12, 193, 14, 193, 1792, 11, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 194, 3, 194, 3, 194, 3, 195, 3, 195, 7, 195, 1803, 10, 195, 12, 195, 14, 195, 1806, 11, 195, 3, 195, 3, 195, 3, 196, 3, 196, 3, 196, 3, 196, 3, 197, 3, 197, 7, 197, 1816, 10, 197, 12, 197, 14, 197, 1819, 11, 197, 3, 197, 3, 197, 3, 198, 5, 198, 1824, 10, 198, 3, 199, 3, 199, 5, 199, 1828, 10, 199, 3, 200, 3, 200, 5, 200, 1832, 10, 200, 3, 200, 3, 200, 7, 200, 1836, 10, 200, 12, 200, 14, 200, 1839, 11, 200, 3, 201, 3, 201, 5, 201, 1843, 10, 201, 3, 202, 3, 202, 3, 202, 7, 202, 1848, 10, 202, 12, 202, 14, 202, 1851, 11, 202, 3, 202, 5, 202, 1854, 10, 202, 3, 203, 3, 203, 3, 203, 5, 203, 1859, 10, 203, 3, 203, 3, 203, 3, 203, 7, 203, 1864, 10, 203, 12, 203, 14, 203, 1867, 11, 203, 3, 203, 3, 203, 3, 203, 5, 203, 1872, 10, 203, 5, 203, 1874, 10, 203, 3, 204, 3, 204, 5, 204, 1878, 10, 204, 3, 205, 3, 205, 3, 205, 3, 205, 3, 206, 5, 206, 1885, 10, 206, 3, 207, 3, 207, 3, 207, 3, 208, 3, 208, 7, 208, 1892, 10, 208, 12, 208, 14, 208, 1895, 11, 208, 3, 208, 3, 208, 3, 209, 3, 209, 3, 210, 3, 210, 3, 211, 3, 211, 3, 212, 3, 212, 3, 213, 3, 213, 3, 214, 3, 214, 3, 215, 3, 215, 3, 216, 3, 216, 3, 217, 3, 217, 3, 218, 3, 218, 3, 219, 3, 219, 3, 220, 3, 220, 3, 221, 3, 221, 3, 222, 3, 222, 3, 223, 3, 223, 3, 224, 3, 224, 3, 225, 3, 225, 3, 226, 3, 226, 3, 227, 3, 227, 3, 228, 3, 228, 3, 229, 3, 229, 3, 230, 3, 230, 3, 231, 3, 231, 3, 232, 3, 232, 3, 233, 3, 233, 3, 234, 3, 234, 2, 2, 235, 3, 3, 5, 4, 7, 5, 9, 6, 11, 7, 13, 8, 15, 9, 17, 10, 19, 11, 21, 12, 23, 13, 25, 14, 27, 15, 29, 16, 31, 17, 33, 18, 35, 19, 37, 20, 39, 21, 41, 22, 43, 23, 45, 24, 47, 25, 49, 26, 51, 27, 53, 28, 55, 29, 57, 30, 59, 31, 61, 32, 63, 33, 65, 34, 67, 35, 69, 36, 71, 37, 73, 38, 75, 39, 77, 40, 79, 41, 81, 42, 83, 43, 85, 44, 87, 45, 89, 46, 91, 47, 93, 48, 95, 49, 97, 50, 99, 51, 101, 52, 103, 53, 105, 54, 107, 55, 109, 56, 111, 57, 113, 58, 115, 59, 117, 60, 119, 61, 121, 62, 123, 63, 125, 64, 127, 65, 129, 66, 131, 67, 133, 68, 135, 69, 137, 70, 139, 71, 141, 72, 143, 73, 145, 74, 147, 75, 149, 76, 151, 77, 153, 78, 155, 79, 157, 80, 159, 81, 161, 82, 163, 83, 165, 84, 167, 85, 169, 86, 171, 87, 173, 88, 175, 89, 177, 90, 179, 91, 181, 92, 183, 93, 185, 94, 187, 95, 189, 96, 191, 97, 193, 98, 195, 99, 197, 100, 199, 101, 201, 102, 203, 103, 205, 104, 207, 105, 209, 106, 211, 107, 213, 108, 215, 109, 217, 110, 219, 111, 221, 112, 223, 113, 225, 114, 227, 115, 229, 116, 231, 117, 233, 118, 235, 119, 237, 120, 239, 121, 241, 122, 243, 123, 245, 124, 247, 125, 249, 126, 251, 127, 253, 128, 255, 129, 257, 130, 259, 131, 261, 132, 263, 133, 265, 134, 267, 135, 269, 136, 271, 137, 273, 138, 275, 139, 277, 140, 279, 141, 281, 142, 283, 143, 285, 144, 287, 145, 289, 146, 291, 147, 293, 148, 295, 149, 297, 150, 299, 151, 301, 152, 303, 153, 305, 154, 307, 155, 309, 156, 311, 157, 313, 158, 315, 159, 317, 160, 319, 161, 321, 162, 323, 163, 325, 164, 327, 165, 329, 166, 331, 167, 333, 168, 335, 169, 337, 170, 339, 171, 341, 172, 343, 173, 345, 174, 347, 175, 349, 176, 351, 177, 353, 178, 355, 179, 357, 180, 359, 181, 361, 182, 363, 183, 365, 184, 367, 185, 369, 186, 371, 187, 373, 188, 375, 189, 377, 190, 379, 191, 381, 192, 383, 193, 385, 194, 387, 195, 389, 196, 391, 197, 393, 198, 395, 199, 397, 200, 399, 201, 401, 202, 403, 203, 405, 204, 407, 205, 409, 206, 411, 207, 413, 208, 415, 209, 417, 2, 419, 2, 421, 2, 423, 2, 425, 2, 427, 2, 429, 2, 431, 2, 433, 2, 435, 2, 437, 2, 439, 2, 441, 2, 443, 2, 445, 2, 447, 2, 449, 2, 451, 2, 453, 2, 455, 2, 457, 2, 459, 2, 461, 2, 463, 2, 465, 2, 467, 2, 3, 2, 45, 10, 2, 2, 34, 36, 36, 62, 62, 64, 64, 94, 94, 96, 96, 98, 98, 125, 127, 3, 2, 50, 59, 4, 2, 67, 92, 99, 124, 5, 2, 50, 59, 67, 92, 99, 124, 4, 2, 71, 71, 103, 103, 4, 2, 45, 45, 47, 47, 6, 2, 12, 12, 15, 15, 41, 41, 94, 94, 6, 2, 12, 12, 15, 15, 36, 36, 94, 94, 5, 2, 41, 41, 94, 94, 96, 96, 5, 2, 36, 36, 94, 94, 96, 96, 9, 2, 36, 36, 41, 41, 100, 100, 104, 104, 112, 112, 116, 116, 118, 118, 5, 2, 11, 12, 15, 15, 34, 34, 6, 2, 50, 59, 185, 185, 770, 881, 8257, 8258, 7, 2, 47, 47, 50, 59, 185, 185, 770, 881, 8257, 8258, 4, 2, 48, 48, 60, 60, 5, 2, 50, 59, 67, 72, 99, 104, 9, 2, 35, 35, 37, 49, 61, 61, 63, 63, 65, 66, 97, 97, 128, 128, 4, 2, 12, 12, 15, 15, 4, 2, 67, 67, 99, 99, 4, 2, 68, 68, 100, 100, 4, 2, 69, 69, 101, 101, 4, 2, 70, 70, 102, 102, 4, 2, 72, 72, 104, 104, 4, 2, 73, 73, 105, 105, 4, 2, 74, 74, 106, 106, 4, 2, 75, 75, 107, 107, 4, 2, 76, 76, 108, 108, 4, 2, 77, 77, 109, 109, 4, 2, 78, 78, 110, 110, 4, 2, 79, 79, 111, 111, 4, 2, 80, 80, 112, 112, 4, 2, 81, 81, 113, 113, 4, 2, 82, 82, 114, 114, 4, 2, 83, 83, 115, 115, 4, 2, 84, 84, 116, 116, 4, 2, 85, 85, 117, 117, 4, 2, 86, 86, 118, 118, 4, 2, 87, 87, 119, 119, 4, 2, 88, 88, 120, 120, 4, 2, 89, 89, 121, 121, 4, 2, 90, 90, 122, 122, 4, 2, 91, 91, 123, 123, 4, 2, 92, 92, 124, 124, 3, 16, 2, 67, 2, 92, 2, 99, 2, 124, 2, 194, 2, 216, 2, 218, 2, 248, 2, 250, 2, 769, 2, 882, 2, 895, 2, 897, 2, 8193, 2, 8206, 2, 8207, 2, 8306, 2, 8593, 2, 11266, 2, 12273, 2, 12291, 2, 55297, 2, 63746, 2, 64977, 2, 65010, 2, 65535, 2, 2, 3, 1, 16, 1975, 2, 3, 3, 2, 2, 2, 2, 5, 3, 2, 2, 2, 2, 7, 3, 2, 2, 2, 2, 9, 3, 2, 2, 2, 2, 11, 3, 2, 2, 2, 2, 13, 3, 2, 2, 2, 2, 15, 3, 2, 2, 2, 2, 17, 3, 2, 2, 2, 2, 19, 3, 2, 2, 2, 2, 21, 3, 2, 2, 2, 2, 23, 3, 2, 2, 2, 2, 25, 3, 2, 2, 2, 2, 27, 3, 2, 2, 2, 2, 29, 3, 2, 2, 2, 2, 31, 3, 2, 2, 2, 2, 33, 3, 2, 2, 2, 2, 35, 3, 2, 2, 2, 2, 37, 3, 2, 2, 2, 2, 39, 3, 2, 2, 2, 2, 41, 3, 2, 2, 2, 2, 43, 3, 2, 2, 2, 2, 45, 3, 2, 2, 2, 2, 47, 3, 2, 2, 2, 2, 49, 3, 2, 2, 2, 2, 51, 3, 2, 2, 2, 2, 53, 3, 2, 2, 2, 2, 55, 3, 2, 2, 2, 2, 57, 3, 2, 2, 2, 2, 59, 3, 2, 2, 2, 2, 61, 3, 2, 2, 2, 2, 63, 3, 2, 2, 2, 2, 65, 3, 2, 2, 2, 2, 67, 3, 2, 2, 2, 2, 69, 3, 2, 2, 2, 2, 71, 3, 2, 2, 2, 2, 73, 3, 2, 2, 2, 2, 75, 3, 2, 2, 2, 2, 77, 3, 2, 2, 2, 2, 79, 3, 2, 2, 2, 2, 81, 3, 2, 2, 2, 2, 83, 3, 2, 2, 2, 2, 85, 3, 2, 2, 2, 2, 87, 3, 2, 2, 2, 2, 89, 3, 2, 2, 2, 2, 91, 3, 2, 2, 2, 2, 93, 3, 2, 2, 2, 2, 95, 3, 2, 2, 2, 2, 97, 3, 2, 2, 2, 2, 99, 3, 2, 2, 2, 2, 101, 3, 2, 2, 2, 2, 103, 3, 2, 2, 2, 2, 105, 3, 2, 2, 2, 2, 107, 3, 2, 2, 2, 2, 109, 3, 2, 2, 2, 2, 111, 3, 2, 2, 2, 2, 113, 3, 2, 2, 2, 2, 115, 3, 2, 2, 2, 2, 117, 3, 2, 2, 2, 2, 119, 3, 2, 2, 2, 2, 121, 3, 2, 2, 2, 2, 123, 3, 2, 2, 2, 2, 125, 3, 2, 2, 2, 2, 127, 3, 2, 2, 2, 2, 129, 3, 2, 2, 2, 2, 131, 3, 2, 2, 2, 2, 133, 3, 2, 2, 2, 2, 135, 3, 2, 2, 2, 2, 137, 3, 2, 2, 2, 2, 139, 3, 2, 2, 2, 2, 141, 3, 2, 2, 2, 2, 143, 3, 2, 2, 2, 2, 145, 3, 2, 2, 2, 2, 147, 3, 2, 2, 2, 2, 149, 3, 2, 2, 2, 2, 151, 3, 2, 2, 2, 2, 153, 3, 2, 2, 2, 2, 155, 3, 2, 2, 2, 2, 157, 3, 2, 2, 2, 2, 159, 3, 2, 2, 2, 2, 161, 3, 2, 2, 2, 2, 163, 3, 2, 2, 2, 2, 165, 3, 2, 2, 2, 2, 167, 3, 2, 2, 2, 2, 169, 3, 2, 2, 2, 2, 171, 3, 2, 2, 2, 2, 173, 3, 2, 2, 2, 2, 175, 3, 2, 2, 2, 2, 177, 3, 2, 2, 2, 2, 179, 3, 2, 2, 2, 2, 181, 3, 2, 2, 2, 2, 183, 3, 2, 2, 2, 2, 185, 3, 2, 2, 2, 2, 187, 3, 2, 2, 2, 2, 189, 3, 2, 2, 2, 2, 191, 3, 2, 2, 2, 2, 193, 3, 2, 2, 2, 2, 195, 3, 2, 2, 2, 2, 197, 3, 2, 2, 2, 2, 199, 3, 2, 2, 2, 2, 201, 3, 2, 2, 2, 2, 203, 3, 2, 2, 2, 2, 205, 3, 2, 2, 2, 2, 207, 3, 2, 2, 2, 2, 209, 3, 2, 2, 2, 2, 211, 3, 2, 2, 2, 2, 213, 3, 2, 2, 2, 2, 215, 3, 2, 2, 2, 2, 217, 3, 2, 2, 2, 2, 219, 3, 2, 2, 2, 2, 221, 3, 2, 2, 2, 2, 223, 3, 2, 2, 2, 2, 225, 3, 2, 2, 2, 2, 227, 3, 2, 2, 2, 2, 229, 3, 2, 2, 2, 2, 231, 3, 2, 2, 2, 2, 233, 3, 2, 2, 2, 2, 235, 3, 2, 2, 2, 2, 237, 3, 2, 2, 2, 2, 239, 3, 2, 2, 2, 2, 241, 3, 2, 2, 2, 2, 243, 3, 2, 2, 2, 2, 245, 3, 2, 2, 2, 2, 247, 3, 2, 2, 2, 2, 249, 3, 2, 2, 2, 2, 251, 3, 2, 2, 2, 2, 253, 3, 2, 2, 2, 2, 255, 3, 2, 2, 2, 2, 257, 3, 2, 2, 2, 2, 259, 3, 2, 2, 2, 2, 261, 3, 2, 2, 2, 2, 263, 3, 2, 2, 2, 2, 265, 3, 2, 2, 2, 2, 267, 3, 2, 2, 2, 2, 269, 3, 2, 2, 2, 2, 271, 3, 2, 2, 2, 2, 273, 3, 2, 2, 2, 2, 275, 3, 2, 2, 2, 2, 277, 3, 2, 2, 2, 2, 279, 3, 2, 2, 2, 2, 281, 3, 2, 2, 2, 2, 283, 3, 2, 2, 2, 2, 285, 3, 2, 2, 2, 2, 287, 3, 2, 2, 2, 2, 289, 3, 2, 2, 2, 2, 291, 3, 2, 2, 2, 2, 293, 3, 2, 2, 2, 2, 295, 3, 2, 2, 2, 2, 297, 3, 2, 2, 2, 2, 299, 3, 2, 2, 2, 2, 301, 3, 2, 2, 2, 2, 303, 3, 2, 2, 2, 2, 305, 3, 2, 2, 2, 2, 307, 3, 2, 2, 2, 2, 309, 3, 2, 2, 2, 2, 311, 3, 2, 2, 2, 2, 313, 3, 2, 2, 2, 2, 315, 3, 2, 2, 2, 2, 317, 3, 2, 2, 2, 2, 319, 3, 2, 2, 2, 2, 321, 3, 2, 2, 2, 2, 323, 3, 2, 2, 2, 2, 325, 3, 2, 2, 2, 2, 327, 3, 2, 2, 2, 2, 329, 3, 2, 2, 2, 2, 331, 3, 2, 2, 2, 2, 333, 3, 2, 2, 2, 2, 335, 3, 2, 2, 2, 2, 337, 3, 2, 2, 2, 2, 339, 3, 2, 2, 2, 2, 341, 3, 2, 2, 2, 2, 343, 3, 2, 2, 2, 2, 345, 3, 2, 2, 2, 2, 347, 3, 2, 2, 2, 2, 349, 3, 2, 2, 2, 2, 351, 3, 2, 2, 2, 2, 353, 3, 2, 2, 2, 2, 355, 3, 2, 2, 2, 2, 357, 3, 2, 2, 2, 2, 359, 3, 2, 2, 2, 2, 361, 3, 2, 2, 2, 2, 363, 3, 2, 2, 2, 2, 365, 3, 2, 2, 2, 2, 367, 3, 2, 2, 2, 2, 369, 3, 2, 2, 2, 2, 371, 3, 2, 2, 2, 2, 373, 3, 2, 2, 2, 2, 375, 3, 2, 2, 2, 2, 377, 3, 2, 2, 2, 2, 379, 3, 2, 2, 2, 2, 381, 3, 2, 2, 2, 2, 383, 3, 2, 2, 2, 2, 385, 3, 2, 2, 2, 2, 387, 3, 2, 2, 2, 2, 389, 3, 2, 2, 2, 2, 391, 3, 2, 2, 2, 2, 393, 3, 2, 2, 2, 2, 395, 3, 2, 2, 2, 2, 397, 3, 2, 2, 2, 2, 399, 3, 2, 2, 2, 2, 401, 3, 2, 2, 2, 2, 403, 3, 2, 2, 2, 2, 405, 3, 2, 2, 2, 2, 407, 3, 2, 2, 2, 2, 409, 3, 2, 2, 2, 2, 411, 3, 2, 2, 2, 2, 413, 3, 2, 2, 2, 2, 415, 3, 2, 2, 2, 3, 469, 3, 2, 2, 2, 5, 471, 3, 2, 2, 2, 7, 473, 3, 2, 2, 2, 9, 475, 3, 2, 2, 2, 11, 477, 3, 2, 2, 2, 13, 479, 3, 2, 2, 2, 15, 481, 3, 2, 2, 2, 17, 483, 3, 2, 2, 2, 19, 485, 3, 2, 2, 2, 21, 487, 3, 2, 2, 2, 23, 489, 3, 2, 2, 2, 25, 491, 3, 2, 2, 2, 27, 493, 3, 2, 2, 2, 29, 495, 3, 2, 2, 2, 31, 497, 3, 2, 2, 2, 33, 499, 3, 2, 2, 2, 35, 501, 3, 2, 2, 2, 37, 503, 3, 2, 2, 2, 39, 506, 3, 2, 2, 2, 41, 509, 3, 2, 2, 2, 43, 511, 3, 2, 2, 2, 45, 514, 3, 2, 2, 2, 47, 516, 3, 2, 2, 2, 49, 518, 3, 2, 2, 2, 51, 521, 3, 2, 2, 2, 53, 524, 3, 2, 2, 2, 55, 526, 3, 2, 2, 2, 57, 529, 3, 2, 2, 2, 59, 534, 3, 2, 2, 2, 61, 540, 3, 2, 2, 2, 63, 544, 3, 2, 2, 2, 65, 549, 3, 2, 2, 2, 67, 555, 3, 2, 2, 2, 69, 558, 3, 2, 2, 2, 71, 562, 3, 2, 2, 2, 73, 566, 3, 2, 2, 2, 75, 573, 3, 2, 2, 2, 77, 576, 3, 2, 2, 2, 79, 582, 3, 2, 2, 2, 81, 589, 3, 2, 2, 2, 83, 595, 3, 2, 2, 2, 85, 603, 3, 2, 2, 2, 87, 610, 3, 2, 2, 2, 89, 616, 3, 2, 2, 2, 91, 619, 3, 2, 2, 2, 93, 624, 3, 2, 2, 2, 95, 629, 3, 2, 2, 2, 97, 635, 3, 2, 2, 2, 99, 644, 3, 2, 2, 2, 101, 654, 3, 2, 2, 2, 103, 662, 3, 2, 2, 2, 105, 672, 3, 2, 2, 2, 107, 676, 3, 2, 2, 2, 109, 682, 3, 2, 2, 2, 111, 688, 3, 2, 2, 2, 113, 697, 3, 2, 2, 2, 115, 701, 3, 2, 2, 2, 117, 709, 3, 2, 2, 2, 119, 714, 3, 2, 2, 2, 121, 719, 3, 2, 2, 2, 123, 725, 3, 2, 2, 2, 125, 730, 3, 2, 2, 2, 127, 733, 3, 2, 2, 2, 129, 737, 3, 2, 2, 2, 131, 741, 3, 2, 2, 2, 133, 746, 3, 2, 2, 2, 135, 749, 3, 2, 2, 2, 137, 754, 3, 2, 2, 2, 139, 759, 3, 2, 2, 2, 141, 764, 3, 2, 2, 2, 143, 770, 3, 2, 2, 2, 145, 776, 3, 2, 2, 2, 147, 780, 3, 2, 2, 2, 149, 787, 3, 2, 2, 2, 151, 793, 3, 2, 2, 2, 153, 801, 3, 2, 2, 2, 155, 807, 3, 2, 2, 2, 157, 816, 3, 2, 2, 2, 159, 826, 3, 2, 2, 2, 161, 830, 3, 2, 2, 2, 163, 835, 3, 2, 2, 2, 165, 842, 3, 2, 2, 2, 167, 851, 3, 2, 2, 2, 169, 861, 3, 2, 2, 2, 171, 865, 3, 2, 2, 2, 173, 875, 3, 2, 2, 2, 175, 884, 3, 2, 2, 2, 177, 891, 3, 2, 2, 2, 179, 896, 3, 2, 2, 2, 181, 903, 3, 2, 2, 2, 183, 908, 3, 2, 2, 2, 185, 912, 3, 2, 2, 2, 187, 919, 3, 2, 2, 2, 189, 925, 3, 2, 2, 2, 191, 929, 3, 2, 2, 2, 193, 937, 3, 2, 2, 2, 195, 944, 3, 2, 2, 2, 197, 953, 3, 2, 2, 2, 199, 960, 3, 2, 2, 2, 201, 968, 3, 2, 2, 2, 203, 976, 3, 2, 2, 2, 205, 982, 3, 2, 2, 2, 207, 989, 3, 2, 2, 2, 209, 999, 3, 2, 2, 2, 211, 1003, 3, 2, 2, 2, 213, 1010, 3, 2, 2, 2, 215, 1018, 3, 2, 2, 2, 217, 1024, 3, 2, 2, 2, 219, 1030, 3, 2, 2, 2, 221, 1036, 3, 2, 2, 2, 223, 1044, 3, 2, 2, 2, 225, 1048, 3, 2, 2, 2, 227, 1057, 3, 2, 2, 2, 229, 1064, 3, 2, 2, 2, 231, 1070, 3, 2, 2, 2, 233, 1074, 3, 2, 2, 2, 235, 1082, 3, 2, 2, 2, 237, 1087, 3, 2, 2, 2, 239, 1099, 3, 2, 2, 2, 241, 1105, 3, 2, 2, 2, 243, 1108, 3, 2, 2, 2, 245, 1114, 3, 2, 2, 2, 247, 1119, 3, 2, 2, 2, 249, 1125, 3, 2, 2, 2, 251, 1131, 3, 2, 2, 2, 253, 1140, 3, 2, 2, 2, 255, 1147, 3, 2, 2, 2, 257, 1153, 3, 2, 2, 2, 259, 1162, 3, 2, 2, 2, 261, 1168, 3, 2, 2, 2, 263, 1175, 3, 2, 2, 2, 265, 1191, 3, 2, 2, 2, 267, 1210, 3, 2, 2, 2, 269, 1220, 3, 2, 2, 2, 271, 1233, 3, 2, 2, 2, 273, 1246, 3, 2, 2, 2, 275, 1262, 3, 2, 2, 2, 277, 1276, 3, 2, 2, 2, 279, 1290, 3, 2, 2, 2, 281, 1308, 3, 2, 2, 2, 283, 1312, 3, 2, 2, 2, 285, 1329, 3, 2, 2, 2, 287, 1349, 3, 2, 2, 2, 289, 1358, 3, 2, 2, 2, 291, 1361, 3, 2, 2, 2, 293, 1367, 3, 2, 2, 2, 295, 1375, 3, 2, 2, 2, 297, 1379, 3, 2, 2, 2, 299, 1384, 3, 2, 2, 2, 301, 1392, 3, 2, 2, 2, 303, 1402, 3, 2, 2, 2, 305, 1406, 3, 2, 2, 2, 307, 1419, 3, 2, 2, 2, 309, 1432, 3, 2, 2, 2, 311, 1442, 3, 2, 2, 2, 313, 1446, 3, 2, 2, 2, 315, 1456, 3, 2, 2, 2, 317, 1469, 3, 2, 2, 2, 319, 1487, 3, 2, 2, 2, 321, 1495, 3, 2, 2, 2, 323, 1500, 3, 2, 2, 2, 325, 1509, 3, 2, 2, 2, 327, 1521, 3, 2, 2, 2, 329, 1533, 3, 2, 2, 2, 331, 1546, 3, 2, 2, 2, 333, 1561, 3, 2, 2, 2, 335, 1565, 3, 2, 2, 2, 337, 1570, 3, 2, 2, 2, 339, 1577, 3, 2, 2, 2, 341, 1584, 3, 2, 2, 2, 343, 1591, 3, 2, 2, 2, 345, 1604, 3, 2, 2, 2, 347, 1614, 3, 2, 2, 2, 349, 1618, 3, 2, 2, 2, 351, 1621, 3, 2, 2, 2, 353, 1638, 3, 2, 2, 2, 355, 1641, 3, 2, 2, 2, 357, 1644, 3, 2, 2, 2, 359, 1662, 3, 2, 2, 2, 361, 1669, 3, 2, 2, 2, 363, 1704, 3, 2, 2, 2, 365, 1706, 3, 2, 2, 2, 367, 1709, 3, 2, 2, 2, 369, 1712, 3, 2, 2, 2, 371, 1715, 3, 2, 2, 2, 373, 1718, 3, 2, 2, 2, 375, 1721, 3, 2, 2, 2, 377, 1724, 3, 2, 2, 2, 379, 1733, 3, 2, 2, 2, 381, 1743, 3, 2, 2, 2, 383, 1753, 3, 2, 2, 2, 385, 1775, 3, 2, 2, 2, 387, 1797, 3, 2, 2, 2, 389, 1800, 3, 2, 2, 2, 391, 1809, 3, 2, 2, 2, 393, 1813, 3, 2, 2, 2, 395, 1823, 3, 2, 2, 2, 397, 1827, 3, 2, 2, 2, 399, 1831, 3, 2, 2, 2, 401, 1842, 3, 2, 2, 2, 403, 1844, 3, 2, 2, 2, 405, 1858, 3, 2, 2, 2, 407, 1877, 3, 2, 2, 2, 409, 1879, 3, 2, 2, 2, 411, 1884, 3, 2, 2, 2, 413, 1886, 3, 2, 2, 2, 415, 1889, 3, 2, 2, 2, 417, 1898, 3, 2, 2, 2, 419, 1900, 3, 2, 2, 2, 421, 1902, 3, 2, 2, 2, 423, 1904, 3, 2, 2, 2, 425, 1906, 3, 2, 2, 2, 427, 1908, 3, 2, 2, 2, 429, 1910, 3, 2, 2, 2, 431, 1912, 3, 2, 2, 2, 433, 1914, 3, 2, 2, 2, 435, 1916, 3, 2, 2, 2, 437, 1918, 3, 2, 2, 2, 439, 1920, 3, 2, 2, 2, 441, 1922, 3, 2, 2, 2, 443, 1924, 3, 2, 2, 2, 445, 1926, 3, 2, 2, 2, 447, 1928, 3, 2, 2, 2, 449, 1930, 3, 2, 2, 2, 451, 1932, 3, 2, 2, 2, 453, 1934, 3, 2, 2, 2, 455, 1936, 3, 2, 2, 2, 457, 1938, 3, 2, 2, 2, 459, 1940, 3, 2, 2, 2, 461, 1942, 3, 2, 2, 2, 463, 1944, 3, 2, 2, 2, 465, 1946, 3, 2, 2, 2, 467, 1948, 3, 2, 2, 2, 469, 470, 7, 44, 2, 2, 470, 4, 3, 2, 2, 2, 471, 472, 7, 42, 2, 2, 472, 6, 3, 2, 2, 2, 473, 474, 7, 43, 2, 2, 474, 8, 3, 2, 2, 2, 475, 476, 7, 125, 2, 2, 476, 10, 3, 2, 2, 2, 477, 478, 7, 127, 2, 2, 478, 12, 3, 2, 2, 2, 479, 480, 7, 61, 2, 2, 480, 14, 3, 2, 2, 2, 481, 482, 7, 48, 2, 2, 482, 16, 3, 2, 2, 2, 483, 484, 7, 46, 2, 2, 484, 18, 3, 2, 2, 2, 485, 486, 7, 99, 2, 2, 486, 20, 3, 2, 2, 2, 487, 488, 7, 126, 2, 2, 488, 22, 3, 2, 2, 2, 489, 490, 7, 49, 2, 2, 490, 24, 3, 2, 2, 2, 491, 492, 7, 96, 2, 2, 492, 26, 3, 2, 2, 2, 493, 494, 7, 65, 2, 2, 494, 28, 3, 2, 2, 2, 495, 496, 7, 45, 2, 2, 496, 30, 3, 2, 2, 2, 497, 498, 7, 35, 2, 2, 498, 32, 3, 2, 2, 2, 499, 500, 7, 93, 2, 2, 500, 34, 3, 2, 2, 2, 501, 502, 7, 95, 2, 2, 502, 36, 3, 2, 2, 2, 503, 504, 7, 126, 2, 2, 504, 505, 7, 126, 2, 2, 505, 38, 3, 2, 2, 2, 506, 507, 7, 40, 2, 2, 507, 508, 7, 40, 2, 2, 508, 40, 3, 2, 2, 2, 509, 510, 7, 63, 2, 2, 510, 42, 3, 2, 2, 2, 511, 512, 7, 35, 2, 2, 512, 513, 7, 63, 2, 2, 513, 44, 3, 2, 2, 2, 514, 515, 7, 62, 2, 2, 515, 46, 3, 2, 2, 2, 516, 517, 7, 64, 2, 2, 517, 48, 3, 2, 2, 2, 518, 519, 7, 62, 2, 2, 519, 520, 7, 63, 2, 2, 520, 50, 3, 2, 2, 2, 521, 522, 7, 64, 2, 2, 522, 523, 7, 63, 2, 2, 523, 52, 3, 2, 2, 2, 524, 525, 7, 47, 2, 2, 525, 54, 3, 2, 2, 2, 526, 527, 7, 96, 2, 2, 527, 528, 7, 96, 2, 2, 528, 56, 3, 2, 2, 2, 529, 530, 7, 118, 2, 2, 530, 531, 7, 116, 2, 2, 531, 532, 7, 119, 2, 2, 532, 533, 7, 103, 2, 2, 533, 58, 3, 2, 2, 2, 534, 535, 7, 104, 2, 2, 535, 536, 7, 99, 2, 2, 536, 537, 7, 110, 2, 2, 537, 538, 7, 117, 2, 2, 538, 539, 7, 103, 2, 2, 539, 60, 3, 2, 2, 2, 540, 541, 5, 443, 222, 2, 541, 542, 5, 445, 223, 2, 542, 543, 5, 461, 231, 2, 543, 62, 3, 2, 2, 2, 544, 545, 5, 465, 233, 2, 545, 546, 5, 425, 213, 2, 546, 547, 5, 417, 209, 2, 547, 548, 5, 451, 226, 2, 548, 64, 3, 2, 2, 2, 549, 550, 5, 457, 229, 2, 550, 551, 5, 443, 222, 2, 551, 552, 5, 433, 217, 2, 552, 553, 5, 445, 223, 2, 553, 554, 5, 443, 222, 2, 554, 66, 3, 2, 2, 2, 555, 556, 5, 433, 217, 2, 556, 557, 5, 427, 214, 2, 557, 68, 3, 2, 2, 2, 558, 559, 5, 417, 209, 2, 559, 560, 5, 453, 227, 2, 560, 561, 5, 437, 219, 2, 561, 70, 3, 2, 2, 2, 562, 563, 5, 417, 209, 2, 563, 564, 5, 453, 227, 2, 564, 565, 5, 421, 211, 2, 565, 72, 3, 2, 2, 2, 566, 567, 5, 421, 211, 2, 567, 568, 5, 445, 223, 2, 568, 569, 5, 443, 222, 2, 569, 570, 5, 421, 211, 2, 570, 571, 5, 417, 209, 2, 571, 572, 5, 455, 228, 2, 572, 74, 3, 2, 2, 2, 573, 574, 5, 433, 217, 2, 574, 575, 5, 443, 222, 2, 575, 76, 3, 2, 2, 2, 576, 577, 5, 457, 229, 2, 577, 578, 5, 443, 222, 2, 578, 579, 5, 423, 212, 2, 579, 580, 5, 425, 213, 2, 580, 581, 5, 427, 214, 2, 581, 78, 3, 2, 2, 2, 582, 583, 5, 433, 217, 2, 583, 584, 5, 443, 222, 2, 584, 585, 5, 453, 227, 2, 585, 586, 5, 425, 213, 2, 586, 587, 5, 451, 226, 2, 587, 588, 5, 455, 228, 2, 588, 80, 3, 2, 2, 2, 589, 590, 5, 441, 221, 2, 590, 591, 5, 445, 223, 2, 591, 592, 5, 443, 222, 2, 592, 593, 5, 455, 228, 2, 593, 594, 5, 431, 216, 2, 594, 82, 3, 2, 2, 2, 595, 596, 5, 423, 212, 2, 596, 597, 5, 425, 213, 2, 597, 598, 5, 427, 214, 2, 598, 599, 5, 417, 209, 2, 599, 600, 5, 457, 229, 2, 600, 601, 5, 439, 220, 2, 601, 602, 5, 455, 228, 2, 602, 84, 3, 2, 2, 2, 603, 604, 5, 453, 227, 2, 604, 605, 5, 425, 213, 2, 605, 606, 5, 439, 220, 2, 606, 607, 5, 425, 213, 2, 607, 608, 5, 421, 211, 2, 608, 609, 5, 455, 228, 2, 609, 86, 3, 2, 2, 2, 610, 611, 5, 427, 214, 2, 611, 612, 5, 439, 220, 2, 612, 613, 5, 445, 223, 2, 613, 614, 5, 445, 223, 2, 614, 615, 5, 451, 226, 2, 615, 88, 3, 2, 2, 2, 616, 617, 5, 455, 228, 2, 617, 618, 5, 467, 234, 2, 618, 90, 3, 2, 2, 2, 619, 620, 5, 421, 211, 2, 620, 621, 5, 445, 223, 2, 621, 622, 5, 447, 224, 2, 622, 623, 5, 465, 233, 2, 623, 92, 3, 2, 2, 2, 624, 625, 5, 421, 211, 2, 625, 626, 5, 425, 213, 2, 626, 627, 5, 433, 217, 2, 627, 628, 5, 439, 220, 2, 628, 94, 3, 2, 2, 2, 629, 630, 5, 431, 216, 2, 630, 631, 5, 445, 223, 2, 631, 632, 5, 457, 229, 2, 632, 633, 5, 451, 226, 2, 633, 634, 5, 453, 227, 2, 634, 96, 3, 2, 2, 2, 635, 636, 5, 423, 212, 2, 636, 637, 5, 417, 209, 2, 637, 638, 5, 455, 228, 2, 638, 639, 5, 417, 209, 2, 639, 640, 5, 455, 228, 2, 640, 641, 5, 465, 233, 2, 641, 642, 5, 447, 224, 2, 642, 643, 5, 425, 213, 2, 643, 98, 3, 2, 2, 2, 644, 645, 5, 433, 217, 2, 645, 646, 5, 453, 227, 2, 646, 647, 5, 443, 222, 2, 647, 648, 5, 457, 229, 2, 648, 649, 5, 441, 221, 2, 649, 650, 5, 425, 213, 2, 650, 651, 5, 451, 226, 2, 651, 652, 5, 433, 217, 2, 652, 653, 5, 421, 211, 2, 653, 100, 3, 2, 2, 2, 654, 655, 5, 453, 227, 2, 655, 656, 5, 455, 228, 2, 656, 657, 5, 451, 226, 2, 657, 658, 5, 457, 229, 2, 658, 659, 5, 457, 229, 2, 659, 660, 5, 433, 217, 2, 660, 661, 5, 423, 212, 2, 661, 102, 3, 2, 2, 2, 662, 663, 5, 421, 211, 2, 663, 664, 5, 445, 223, 2, 664, 665, 5, 443, 222, 2, 665, 666, 5, 453, 227, 2, 666, 667, 5, 455, 228, 2, 667, 668, 5, 451, 226, 2, 668, 669, 5, 457, 229, 2, 669, 670, 5, 421, 211, 2, 670, 671, 5, 455, 228, 2, 671, 104, 3, 2, 2, 2, 672, 673, 5, 417, 209, 2, 673, 674, 5, 423, 212, 2, 674, 675, 5, 423, 212, 2, 675, 106, 3, 2, 2, 2, 676, 677, 5, 419, 210, 2, 677, 678, 5, 445, 223, 2, 678, 679, 5, 457, 229, 2, 679, 680, 5, 443, 222, 2, 680, 681, 5, 423, 212, 2, 681, 108, 3, 2, 2, 2, 682, 683, 5, 443, 222, 2, 683, 684, 5, 417, 209, 2, 684, 685, 5, 441, 221, 2, 685, 686, 5, 425, 213, 2, 686, 687, 5, 423, 212, 2, 687, 110, 3, 2, 2, 2, 688, 689, 5, 455, 228, 2, 689, 690, 5, 433, 217, 2, 690, 691, 5, 441, 221, 2, 691, 692, 5, 425, 213, 2, 692, 693, 5, 467, 234, 2, 693, 694, 5, 445, 223, 2, 694, 695, 5, 443, 222, 2, 695, 696, 5, 425, 213, 2, 696, 112, 3, 2, 2, 2, 697, 698, 5, 441, 221, 2, 698, 699, 5, 433, 217, 2, 699, 700, 5, 443, 222, 2, 700, 114, 3, 2, 2, 2, 701, 702, 5, 433, 217, 2, 702, 703, 5, 453, 227, 2, 703, 704, 5, 419, 210, 2, 704, 705, 5, 439, 220, 2, 705, 706, 5, 417, 209, 2, 706, 707, 5, 443, 222, 2, 707, 708, 5, 437, 219, 2, 708, 116, 3, 2, 2, 2, 709, 710, 5, 457, 229, 2, 710, 711, 5, 457, 229, 2, 711, 712, 5, 433, 217, 2, 712, 713, 5, 423, 212, 2, 713, 118, 3, 2, 2, 2, 714, 715, 5, 419, 210, 2, 715, 716, 5, 433, 217, 2, 716, 717, 5, 443, 222, 2, 717, 718, 5, 423, 212, 2, 718, 120, 3, 2, 2, 2, 719, 720, 5, 421, 211, 2, 720, 721, 5, 439, 220, 2, 721, 722, 5, 425, 213, 2, 722, 723, 5, 417, 209, 2, 723, 724, 5, 451, 226, 2, 724, 122, 3, 2, 2, 2, 725, 726, 5, 433, 217, 2, 726, 727, 5, 443, 222, 2, 727, 728, 5, 455, 228, 2, 728, 729, 5, 445, 223, 2, 729, 124, 3, 2, 2, 2, 730, 731, 5, 417, 209, 2, 731, 732, 5, 453, 227, 2, 732, 126, 3, 2, 2, 2, 733, 734, 5, 417, 209, 2, 734, 735, 5, 439, 220, 2, 735, 736, 5, 439, 220, 2, 736, 128, 3, 2, 2, 2, 737, 738, 5, 433, 217, 2, 738, 739, 5, 451, 226, 2, 739, 740, 5, 433, 217, 2, 740, 130, 3, 2, 2, 2, 741, 742, 5, 419, 210, 2, 742, 743, 5, 417, 209, 2, 743, 744, 5, 453, 227, 2, 744, 745, 5, 425, 213, 2, 745, 132, 3, 2, 2, 2, 746, 747, 5, 419, 210, 2, 747, 748, 5, 465, 233, 2, 748, 134, 3, 2, 2, 2, 749, 750, 5, 423, 212, 2, 750, 751, 5, 451, 226, 2, 751, 752, 5, 445, 223, 2, 752, 753, 5, 447, 224, 2, 753, 136, 3, 2, 2, 2, 754, 755, 5, 439, 220, 2, 755, 756, 5, 445, 223, 2, 756, 757, 5, 417, 209, 2, 757, 758, 5, 423, 212, 2, 758, 138, 3, 2, 2, 2, 759, 760, 5, 461, 231, 2, 760, 761, 5, 433, 217, 2, 761, 762, 5, 455, 228, 2, 762, 763, 5, 431, 216, 2, 763, 140, 3, 2, 2, 2, 764, 765, 5, 419, 210, 2, 765, 766, 5, 443, 222, 2, 766, 767, 5, 445, 223, 2, 767, 768, 5, 423, 212, 2, 768, 769, 5, 425, 213, 2, 769, 142, 3, 2, 2, 2, 770, 771, 5, 461, 231, 2, 771, 772, 5, 431, 216, 2, 772, 773, 5, 425, 213, 2, 773, 774, 5, 451, 226, 2, 774, 775, 5, 425, 213, 2, 775, 144, 3, 2, 2, 2, 776, 777, 5, 417, 209, 2, 777, 778, 5, 459, 230, 2, 778, 779, 5, 429, 215, 2, 779, 146, 3, 2, 2, 2, 780, 781, 5, 453, 227, 2, 781, 782, 5, 417, 209, 2, 782, 783, 5, 441, 221, 2, 783, 784, 5, 447, 224, 2, 784, 785, 5, 439, 220, 2, 785, 786, 5, 425, 213, 2, 786, 148, 3, 2, 2, 2, 787, 788, 5, 457, 229, 2, 788, 789, 5, 421, 211, 2, 789, 790, 5, 417, 209, 2, 790, 791, 5, 453, 227, 2, 791, 792, 5, 425, 213, 2, 792, 150, 3, 2, 2, 2, 793, 794, 5, 453, 227, 2, 794, 795, 5, 425, 213, 2, 795, 796, 5, 451, 226, 2, 796, 797, 5, 459, 230, 2, 797, 798, 5, 433, 217, 2, 798, 799, 5, 421, 211, 2, 799, 800, 5, 425, 213, 2, 800, 152, 3, 2, 2, 2, 801, 802, 5, 441, 221, 2, 802, 803, 5, 433, 217, 2, 803, 804, 5, 443, 222, 2, 804, 805, 5, 457, 229, 2, 805, 806, 5, 453, 227, 2, 806, 154, 3, 2, 2, 2, 807, 808, 5, 453, 227, 2, 808, 809, 5, 417, 209, 2, 809, 810, 5, 441, 221, 2, 810, 811, 5, 425, 213, 2, 811, 812, 5, 455, 228, 2, 812, 813, 5, 425, 213, 2, 813, 814, 5, 451, 226, 2, 814, 815, 5, 441, 221, 2, 815, 156, 3, 2, 2, 2, 816, 817, 5, 453, 227, 2, 817, 818, 5, 455, 228, 2, 818, 819, 5, 451, 226, 2, 819, 820, 5, 453, 227, 2, 820, 821, 5, 455, 228, 2, 821, 822, 5, 417, 209, 2, 822, 823, 5, 451, 226, 2, 823, 824, 5, 455, 228, 2, 824, 825, 5, 453, 227, 2, 825, 158, 3, 2, 2, 2, 826, 827, 5, 453, 227, 2, 827, 828, 5, 455, 228, 2, 828, 829, 5, 451, 226, 2, 829, 160, 3, 2, 2, 2, 830, 831, 5, 441, 221, 2, 831, 832, 5, 445, 223, 2, 832, 833, 5, 459, 230, 2, 833, 834, 5, 425, 213, 2, 834, 162, 3, 2, 2, 2, 835, 836, 5, 431, 216, 2, 836, 837, 5, 417, 209, 2, 837, 838, 5, 459, 230, 2, 838, 839, 5, 433, 217, 2, 839, 840, 5, 443, 222, 2, 840, 841, 5, 429, 215, 2, 841, 164, 3, 2, 2, 2, 842, 843, 5, 421, 211, 2, 843, 844, 5, 445, 223, 2, 844, 845, 5, 417, 209, 2, 845, 846, 5, 439, 220, 2, 846, 847, 5, 425, 213, 2, 847, 848, 5, 453, 227, 2, 848, 849, 5, 421, 211, 2, 849, 850, 5, 425, 213, 2, 850, 166, 3, 2, 2, 2, 851, 852, 5, 453, 227, 2, 852, 853, 5, 455, 228, 2, 853, 854, 5, 451, 226, 2, 854, 855, 5, 419, 210, 2, 855, 856, 5, 425, 213, 2, 856, 857, 5, 427, 214, 2, 857, 858, 5, 445, 223, 2, 858, 859, 5, 451, 226, 2, 859, 860, 5, 425, 213, 2, 860, 168, 3, 2, 2, 2, 861, 862, 5, 417, 209, 2, 862, 863, 5, 419, 210, 2, 863, 864, 5, 453, 227, 2, 864, 170, 3, 2, 2, 2, 865, 866, 5, 433, 217, 2, 866, 867, 5, 453, 227, 2, 867, 868, 5, 439, 220, 2, 868, 869, 5, 433, 217, 2, 869, 870, 5, 455, 228, 2, 870, 871, 5, 425, 213, 2, 871, 872, 5, 451, 226, 2, 872, 873, 5, 417, 209, 2, 873, 874, 5, 439, 220, 2, 874, 172, 3, 2, 2, 2, 875, 876, 5, 453, 227, 2, 876, 877, 5, 455, 228, 2, 877, 878, 5, 451, 226, 2, 878, 879, 5, 417, 209, 2, 879, 880, 5, 427, 214, 2, 880, 881, 5, 455, 228, 2, 881, 882, 5, 425, 213, 2, 882, 883, 5, 451, 226, 2, 883, 174, 3, 2, 2, 2, 884, 885, 5, 453, 227, 2, 885, 886, 5, 455, 228, 2, 886, 887, 5, 451, 226, 2, 887, 888, 5, 439, 220, 2, 888, 889, 5, 425, 213, 2, 889, 890, 5, 443, 222, 2, 890, 176, 3, 2, 2, 2, 891, 892, 5, 439, 220, 2, 892, 893, 5, 417, 209, 2, 893, 894, 5, 443, 222, 2, 894, 895, 5, 429, 215, 2, 895, 178, 3, 2, 2, 2, 896, 897, 5, 421, 211, 2, 897, 898, 5, 451, 226, 2, 898, 899, 5, 425, 213, 2, 899, 900, 5, 417, 209, 2, 900, 901, 5, 455, 228, 2, 901, 902, 5, 425, 213, 2, 902, 180, 3, 2, 2, 2, 903, 904, 5, 423, 212, 2, 904, 905, 5, 425, 213, 2, 905, 906, 5, 453, 227, 2, 906, 907, 5, 421, 211, 2, 907, 182, 3, 2, 2, 2, 908, 909, 5, 441, 221, 2, 909, 910, 5, 417, 209, 2, 910, 911, 5, 463, 232, 2, 911, 184, 3, 2, 2, 2, 912, 913, 5, 427, 214, 2, 913, 914, 5, 433, 217, 2, 914, 915, 5, 439, 220, 2, 915, 916, 5, 455, 228, 2, 916, 917, 5, 425, 213, 2, 917, 918, 5, 451, 226, 2, 918, 186, 3, 2, 2, 2, 919, 920, 5, 457, 229, 2, 920, 921, 5, 453, 227, 2, 921, 922, 5, 433, 217, 2, 922, 923, 5, 443, 222, 2, 923, 924, 5, 429, 215, 2, 924, 188, 3, 2, 2, 2, 925, 926, 5, 443, 222, 2, 926, 927, 5, 445, 223, 2, 927, 928, 5, 455, 228, 2, 928, 190, 3, 2, 2, 2, 929, 930, 5, 453, 227, 2, 930, 931, 5, 455, 228, 2, 931, 932, 5, 451, 226, 2, 932, 933, 5, 425, 213, 2, 933, 934, 5, 443, 222, 2, 934, 935, 5, 423, 212, 2, 935, 936, 5, 453, 227, 2, 936, 192, 3, 2, 2, 2, 937, 938, 5, 445, 223, 2, 938, 939, 5, 427, 214, 2, 939, 940, 5, 427, 214, 2, 940, 941, 5, 453, 227, 2, 941, 942, 5, 425, 213, 2, 942, 943, 5, 455, 228, 2, 943, 194, 3, 2, 2, 2, 944, 945, 5, 421, 211, 2, 945, 946, 5, 445, 223, 2, 946, 947, 5, 443, 222, 2, 947, 948, 5, 455, 228, 2, 948, 949, 5, 417, 209, 2, 949, 950, 5, 433, 217, 2, 950, 951, 5, 443, 222, 2, 951, 952, 5, 453, 227, 2, 952, 196, 3, 2, 2, 2, 953, 954, 5, 447, 224, 2, 954, 955, 5, 451, 226, 2, 955, 956, 5, 425, 213, 2, 956, 957, 5, 427, 214, 2, 957, 958, 5, 433, 217, 2, 958, 959, 5, 463, 232, 2, 959, 198, 3, 2, 2, 2, 960, 961, 5, 441, 221, 2, 961, 962, 5, 433, 217, 2, 962, 963, 5, 443, 222, 2, 963, 964, 5, 457, 229, 2, 964, 965, 5, 455, 228, 2, 965, 966, 5, 425, 213, 2, 966, 967, 5, 453, 227, 2, 967, 200, 3, 2, 2, 2, 968, 969, 5, 451, 226, 2, 969, 970, 5, 425, 213, 2, 970, 971, 5, 447, 224, 2, 971, 972, 5, 439, 220, 2, 972, 973, 5, 417, 209, 2, 973, 974, 5, 421, 211, 2, 974, 975, 5, 425, 213, 2, 975, 202, 3, 2, 2, 2, 976, 977, 5, 451, 226, 2, 977, 978, 5, 425, 213, 2, 978, 979, 5, 429, 215, 2, 979, 980, 5, 425, 213, 2, 980, 981, 5, 463, 232, 2, 981, 204, 3, 2, 2, 2, 982, 983, 5, 423, 212, 2, 983, 984, 5, 425, 213, 2, 984, 985, 5, 439, 220, 2, 985, 986, 5, 425, 213, 2, 986, 987, 5, 455, 228, 2, 987, 988, 5, 425, 213, 2, 988, 206, 3, 2, 2, 2, 989, 990, 5, 453, 227, 2, 990, 991, 5, 425, 213, 2, 991, 992, 5, 447, 224, 2, 992, 993, 5, 417, 209, 2, 993, 994, 5, 451, 226, 2, 994, 995, 5, 417, 209, 2, 995, 996, 5, 455, 228, 2, 996, 997, 5, 445, 223, 2, 997, 998, 5, 451, 226, 2, 998, 208, 3, 2, 2, 2, 999, 1000, 5, 423, 212, 2, 1000, 1001, 5, 417, 209, 2, 1001, 1002, 5, 465, 233, 2, 1002, 210, 3, 2, 2, 2, 1003, 1004, 5, 453, 227, 2, 1004, 1005, 5, 433, 217, 2, 1005, 1006, 5, 439, 220, 2, 1006, 1007, 5, 425, 213, 2, 1007, 1008, 5, 443, 222, 2, 1008, 1009, 5, 455, 228, 2, 1009, 212, 3, 2, 2, 2, 1010, 1011, 5, 453, 227, 2, 1011, 1012, 5, 455, 228, 2, 1012, 1013, 5, 451, 226, 2, 1013, 1014, 5, 439, 220, 2, 1014, 1015, 5, 417, 209, 2, 1015, 1016, 5, 443, 222, 2, 1016, 1017, 5, 429, 215, 2, 1017, 214, 3, 2, 2, 2, 1018, 1019, 5, 445, 223, 2, 1019, 1020, 5, 451, 226, 2, 1020, 1021, 5, 423, 212, 2, 1021, 1022, 5, 425, 213, 2, 1022, 1023, 5, 451, 226, 2, 1023, 216, 3, 2, 2, 2, 1024, 1025, 5, 451, 226, 2, 1025, 1026, 5, 445, 223, 2, 1026, 1027, 5, 457, 229, 2, 1027, 1028, 5, 443, 222, 2, 1028, 1029, 5, 423, 212, 2, 1029, 218, 3, 2, 2, 2, 1030, 1031, 5, 429, 215, 2, 1031, 1032, 5, 451, 226, 2, 1032, 1033, 5, 417, 209, 2, 1033, 1034, 5, 447, 224, 2, 1034, 1035, 5, 431, 216, 2, 1035, 220, 3, 2, 2, 2, 1036, 1037, 5, 453, 227, 2, 1037, 1038, 5, 425, 213, 2, 1038, 1039, 5, 421, 211, 2, 1039, 1040, 5, 445, 223, 2, 1040, 1041, 5, 443, 222, 2, 1041, 1042, 5, 423, 212, 2, 1042, 1043, 5, 453, 227, 2, 1043, 222, 3, 2, 2, 2, 1044, 1045, 5, 457, 229, 2, 1045, 1046, 5, 451, 226, 2, 1046, 1047, 5, 433, 217, 2, 1047, 224, 3, 2, 2, 2, 1048, 1049, 5, 423, 212, 2, 1049, 1050, 5, 433, 217, 2, 1050, 1051, 5, 453, 227, 2, 1051, 1052, 5, 455, 228, 2, 1052, 1053, 5, 433, 217, 2, 1053, 1054, 5, 443, 222, 2, 1054, 1055, 5, 421, 211, 2, 1055, 1056, 5, 455, 228, 2, 1056, 226, 3, 2, 2, 2, 1057, 1058, 5, 425, 213, 2, 1058, 1059, 5, 463, 232, 2, 1059, 1060, 5, 433, 217, 2, 1060, 1061, 5, 453, 227, 2, 1061, 1062, 5, 455, 228, 2, 1062, 1063, 5, 453, 227, 2, 1063, 228, 3, 2, 2, 2, 1064, 1065, 5, 429, 215, 2, 1065, 1066, 5, 451, 226, 2, 1066, 1067, 5, 445, 223, 2, 1067, 1068, 5, 457, 229, 2, 1068, 1069, 5, 447, 224, 2, 1069, 230, 3, 2, 2, 2, 1070, 1071, 5, 453, 227, 2, 1071, 1072, 5, 457, 229, 2, 1072, 1073, 5, 441, 221, 2, 1073, 232, 3, 2, 2, 2, 1074, 1075, 5, 451, 226, 2, 1075, 1076, 5, 425, 213, 2, 1076, 1077, 5, 423, 212, 2, 1077, 1078, 5, 457, 229, 2, 1078, 1079, 5, 421, 211, 2, 1079, 1080, 5, 425, 213, 2, 1080, 1081, 5, 423, 212, 2, 1081, 234, 3, 2, 2, 2, 1082, 1083, 5, 427, 214, 2, 1083, 1084, 5, 451, 226, 2, 1084, 1085, 5, 445, 223, 2, 1085, 1086, 5, 441, 221, 2, 1086, 236, 3, 2, 2, 2, 1087, 1088, 5, 439, 220, 2, 1088, 1089, 5, 417, 209, 2, 1089, 1090, 5, 443, 222, 2, 1090, 1091, 5, 429, 215, 2, 1091, 1092, 5, 441, 221, 2, 1092, 1093, 5, 417, 209, 2, 1093, 1094, 5, 455, 228, 2, 1094, 1095, 5, 421, 211, 2, 1095, 1096, 5, 431, 216, 2, 1096, 1097, 5, 425, 213, 2, 1097, 1098, 5, 453, 227, 2, 1098, 238, 3, 2, 2, 2, 1099, 1100, 5, 433, 217, 2, 1100, 1101, 5, 453, 227, 2, 1101, 1102, 5, 457, 229, 2, 1102, 1103, 5, 451, 226, 2, 1103, 1104, 5, 433, 217, 2, 1104, 240, 3, 2, 2, 2, 1105, 1106, 5, 455, 228, 2, 1106, 1107, 5, 445, 223, 2, 1107, 242, 3, 2, 2, 2, 1108, 1109, 5, 433, 217, 2, 1109, 1110, 5, 453, 227, 2, 1110, 1111, 5, 433, 217, 2, 1111, 1112, 5, 451, 226, 2, 1112, 1113, 5, 433, 217, 2, 1113, 244, 3, 2, 2, 2, 1114, 1115, 5, 451, 226, 2, 1115, 1116, 5, 417, 209, 2, 1116, 1117, 5, 443, 222, 2, 1117, 1118, 5, 423, 212, 2, 1118, 246, 3, 2, 2, 2, 1119, 1120, 5, 453, 227, 2, 1120, 1121, 5, 455, 228, 2, 1121, 1122, 5, 451, 226, 2, 1122, 1123, 5, 423, 212, 2, 1123, 1124, 5, 455, 228, 2, 1124, 248, 3, 2, 2, 2, 1125, 1126, 5, 421, 211, 2, 1126, 1127, 5, 445, 223, 2, 1127, 1128, 5, 457, 229, 2, 1128, 1129, 5, 443, 222, 2, 1129, 1130, 5, 455, 228, 2, 1130, 250, 3, 2, 2, 2, 1131, 1132, 5, 423, 212, 2, 1132, 1133, 5, 425, 213, 2, 1133, 1134, 5, 453, 227, 2, 1134, 1135, 5, 421, 211, 2, 1135, 1136, 5, 451, 226, 2, 1136, 1137, 5, 433, 217, 2, 1137, 1138, 5, 419, 210, 2, 1138, 1139, 5, 425, 213, 2, 1139, 252, 3, 2, 2, 2, 1140, 1141, 5, 459, 230, 2, 1141, 1142, 5, 417, 209, 2, 1142, 1143, 5, 439, 220, 2, 1143, 1144, 5, 457, 229, 2, 1144, 1145, 5, 425, 213, 2, 1145, 1146, 5, 453, 227, 2, 1146, 254, 3, 2, 2, 2, 1147, 1148, 5, 439, 220, 2, 1148, 1149, 5, 421, 211, 2, 1149, 1150, 5, 417, 209, 2, 1150, 1151, 5, 453, 227, 2, 1151, 1152, 5, 425, 213, 2, 1152, 256, 3, 2, 2, 2, 1153, 1154, 5, 445, 223, 2, 1154, 1155, 5, 447, 224, 2, 1155, 1156, 5, 455, 228, 2, 1156, 1157, 5, 433, 217, 2, 1157, 1158, 5, 445, 223, 2, 1158, 1159, 5, 443, 222, 2, 1159, 1160, 5, 417, 209, 2, 1160, 1161, 5, 439, 220, 2, 1161, 258, 3, 2, 2, 2, 1162, 1163, 5, 439, 220, 2, 1163, 1164, 5, 433, 217, 2, 1164, 1165, 5, 441, 221, 2, 1165, 1166, 5, 433, 217, 2, 1166, 1167, 5, 455, 228, 2, 1167, 260, 3, 2, 2, 2, 1168, 1169, 5, 453, 227, 2, 1169, 1170, 5, 457, 229, 2, 1170, 1171, 5, 419, 210, 2, 1171, 1172, 5, 453, 227, 2, 1172, 1173, 5, 455, 228, 2, 1173, 1174, 5, 451, 226, 2, 1174, 262, 3, 2, 2, 2, 1175, 1176, 5, 453, 227, 2, 1176, 1177, 5, 433, 217, 2, 1177, 1178, 5, 441, 221, 2, 1178, 1179, 5, 447, 224, 2, 1179, 1180, 5, 439, 220, 2, 1180, 1181, 5, 425, 213, 2, 1181, 1182, 5, 421, 211, 2, 1182, 1183, 5, 465, 233, 2, 1183, 1184, 5, 421, 211, 2, 1184, 1185, 5, 439, 220, 2, 1185, 1186, 5, 425, 213, 2, 1186, 1187, 5, 447, 224, 2, 1187, 1188, 5, 417, 209, 2, 1188, 1189, 5, 455, 228, 2, 1189, 1190, 5, 431, 216, 2, 1190, 264, 3, 2, 2, 2, 1191, 1192, 5, 453, 227, 2, 1192, 1193, 5, 433, 217, 2, 1193, 1194, 5, 441, 221, 2, 1194, 1195, 5, 447, 224, 2, 1195, 1196, 5, 439, 220, 2, 1196, 1197, 5, 425, 213, 2, 1197, 1198, 5, 421, 211, 2, 1198, 1199, 5, 465, 233, 2, 1199, 1200, 5, 421, 211, 2, 1200, 1201, 5, 439, 220, 2, 1201, 1202, 5, 425, 213, 2, 1202, 1203, 5, 419, 210, 2, 1203, 1204, 5, 445, 223, 2, 1204, 1205, 5, 445, 223, 2, 1205, 1206, 5, 439, 220, 2, 1206, 1207, 5, 425, 213, 2, 1207, 1208, 5, 417, 209, 2, 1208, 1209, 5, 443, 222, 2, 1209, 266, 3, 2, 2, 2, 1210, 1211, 5, 421, 211, 2, 1211, 1212, 5, 465, 233, 2, 1212, 1213, 5, 421, 211, 2, 1213, 1214, 5, 439, 220, 2, 1214, 1215, 5, 425, 213, 2, 1215, 1216, 5, 447, 224, 2, 1216, 1217, 5, 417, 209, 2, 1217, 1218, 5, 455, 228, 2, 1218, 1219, 5, 431, 216, 2, 1219, 268, 3, 2, 2, 2, 1220, 1221, 5, 421, 211, 2, 1221, 1222, 5, 465, 233, 2, 1222, 1223, 5, 421, 211, 2, 1223, 1224, 5, 439, 220, 2, 1224, 1225, 5, 425, 213, 2, 1225, 1226, 5, 419, 210, 2, 1226, 1227, 5, 445, 223, 2, 1227, 1228, 5, 445, 223, 2, 1228, 1229, 5, 439, 220, 2, 1229, 1230, 5, 425, 213, 2, 1230, 1231, 5, 417, 209, 2, 1231, 1232, 5, 443, 222, 2, 1232, 270, 3, 2, 2, 2, 1233, 1234, 5, 453, 227, 2, 1234, 1235, 5, 431, 216, 2, 1235, 1236, 5, 445, 223, 2, 1236, 1237, 5, 451, 226, 2, 1237, 1238, 5, 455, 228, 2, 1238, 1239, 5, 425, 213, 2, 1239, 1240, 5, 453, 227, 2, 1240, 1241, 5, 455, 228, 2, 1241, 1242, 5, 447, 224, 2, 1242, 1243, 5, 417, 209, 2, 1243, 1244, 5, 455, 228, 2, 1244, 1245, 5, 431, 216, 2, 1245, 272, 3, 2, 2, 2, 1246, 1247, 5, 453, 227, 2, 1247, 1248, 5, 431, 216, 2, 1248, 1249, 5, 445, 223, 2, 1249, 1250, 5, 451, 226, 2, 1250, 1251, 5, 455, 228, 2, 1251, 1252, 5, 425, 213, 2, 1252, 1253, 5, 453, 227, 2, 1253, 1254, 5, 455, 228, 2, 1254, 1255, 5, 447, 224, 2, 1255, 1256, 5, 417, 209, 2, 1256, 1257, 5, 455, 228, 2, 1257, 1258, 5, 431, 216, 2, 1258, 1259, 5, 439, 220, 2, 1259, 1260, 5, 425, 213, 2, 1260, 1261, 5, 443, 222, 2, 1261, 274, 3, 2, 2, 2, 1262, 1263, 5, 437, 219, 2, 1263, 1264, 5, 431, 216, 2, 1264, 1265, 5, 445, 223, 2, 1265, 1266, 5, 447, 224, 2, 1266, 1267, 5, 451, 226, 2, 1267, 1268, 5, 425, 213, 2, 1268, 1269, 5, 417, 209, 2, 1269, 1270, 5, 421, 211, 2, 1270, 1271, 5, 431, 216, 2, 1271, 1272, 5, 417, 209, 2, 1272, 1273, 5, 419, 210, 2, 1273, 1274, 5, 439, 220, 2, 1274, 1275, 5, 425, 213, 2, 1275, 276, 3, 2, 2, 2, 1276, 1277, 5, 437, 219, 2, 1277, 1278, 5, 431, 216, 2, 1278, 1279, 5, 445, 223, 2, 1279, 1280, 5, 447, 224, 2, 1280, 1281, 5, 425, 213, 2, 1281, 1282, 5, 443, 222, 2, 1282, 1283, 5, 457, 229, 2, 1283, 1284, 5, 441, 221, 2, 1284, 1285, 5, 425, 213, 2, 1285, 1286, 5, 451, 226, 2, 1286, 1287, 5, 417, 209, 2, 1287, 1288, 5, 455, 228, 2, 1288, 1289, 5, 425, 213, 2, 1289, 278, 3, 2, 2, 2, 1290, 1291, 5, 437, 219, 2, 1291, 1292, 5, 431, 216, 2, 1292, 1293, 5, 445, 223, 2, 1293, 1294, 5, 447, 224, 2, 1294, 1295, 5, 451, 226, 2, 1295, 1296, 5, 425, 213, 2, 1296, 1297, 5, 417, 209, 2, 1297, 1298, 5, 421, 211, 2, 1298, 1299, 5, 431, 216, 2, 1299, 1300, 5, 417, 209, 2, 1300, 1301, 5, 419, 210, 2, 1301, 1302, 5, 439, 220, 2, 1302, 1303, 5, 425, 213, 2, 1303, 1304, 5, 447, 224, 2, 1304, 1305, 5, 417, 209, 2, 1305, 1306, 5, 455, 228, 2, 1306, 1307, 5, 431, 216, 2, 1307, 280, 3, 2, 2, 2, 1308, 1309, 5, 447, 224, 2, 1309, 1310, 5, 447, 224, 2, 1310, 1311, 5, 451, 226, 2, 1311, 282, 3, 2, 2, 2, 1312, 1313, 5, 455, 228, 2, 1313, 1314, 5, 451, 226, 2, 1314, 1315, 5, 433, 217, 2, 1315, 1316, 5, 417, 209, 2, 1316, 1317, 5, 443, 222, 2, 1317, 1318, 5, 429, 215, 2, 1318, 1319, 5, 439, 220, 2, 1319, 1320, 5, 425, 213, 2, 1320, 1321, 5, 421, 211, 2, 1321, 1322, 5, 445, 223, 2, 1322, 1323, 5, 457, 229, 2, 1323, 1324, 5, 443, 222, 2, 1324, 1325, 5, 455, 228, 2, 1325, 1326, 5, 433, 217, 2, 1326, 1327, 5, 443, 222, 2, 1327, 1328, 5, 429, 215, 2, 1328, 284, 3, 2, 2, 2, 1329, 1330, 5, 421, 211, 2, 1330, 1331, 5, 439, 220, 2, 1331, 1332, 5, 445, 223, 2, 1332, 1333, 5, 453, 227, 2, 1333, 1334, 5, 425, 213, 2, 1334, 1335, 5, 443, 222, 2, 1335, 1336, 5, 425, 213, 2, 1336, 1337, 5, 453, 227, 2, 1337, 1338, 5, 453, 227, 2, 1338, 1339, 5, 421, 211, 2, 1339, 1340, 5, 425, 213, 2, 1340, 1341, 5, 443, 222, 2, 1341, 1342, 5, 455, 228, 2, 1342, 1343, 5, 451, 226, 2, 1343, 1344, 5, 417, 209, 2, 1344, 1345, 5, 439, 220, 2, 1345, 1346, 5, 433, 217, 2, 1346, 1347, 5, 455, 228, 2, 1347, 1348, 5, 465, 233, 2, 1348, 286, 3, 2, 2, 2, 1349, 1350, 5, 419, 210, 2, 1350, 1351, 5, 427, 214, 2, 1351, 1352, 5, 453, 227, 2, 1352, 1353, 5, 421, 211, 2, 1353, 1354, 5, 445, 223, 2, 1354, 1355, 5, 457, 229, 2, 1355, 1356, 5, 443, 222, 2, 1356, 1357, 5, 455, 228, 2, 1357, 288, 3, 2, 2, 2, 1358, 1359, 5, 447, 224, 2, 1359, 1360, 5, 451, 226, 2, 1360, 290, 3, 2, 2, 2, 1361, 1362, 5, 417, 209, 2, 1362, 1363, 5, 439, 220, 2, 1363, 1364, 5, 447, 224, 2, 1364, 1365, 5, 431, 216, 2, 1365, 1366, 5, 417, 209, 2, 1366, 292, 3, 2, 2, 2, 1367, 1368, 5, 441, 221, 2, 1368, 1369, 5, 417, 209, 2, 1369, 1370, 5, 463, 232, 2, 1370, 1371, 5, 433, 217, 2, 1371, 1372, 5, 455, 228, 2, 1372, 1373, 5, 425, 213, 2, 1373, 1374, 5, 451, 226, 2, 1374, 294, 3, 2, 2, 2, 1375, 1376, 5, 455, 228, 2, 1376, 1377, 5, 445, 223, 2, 1377, 1378, 5, 439, 220, 2, 1378, 296, 3, 2, 2, 2, 1379, 1380, 5, 453, 227, 2, 1380, 1381, 5, 453, 227, 2, 1381, 1382, 5, 453, 227, 2, 1382, 1383, 5, 447, 224, 2, 1383, 298, 3, 2, 2, 2, 1384, 1385, 5, 453, 227, 2, 1385, 1386, 5, 453, 227, 2, 1386, 1387, 5, 453, 227, 2, 1387, 1388, 5, 447, 224, 2, 1388, 1389, 5, 439, 220, 2, 1389, 1390, 5, 425, 213, 2, 1390, 1391, 5, 443, 222, 2, 1391, 300, 3, 2, 2, 2, 1392, 1393, 5, 439, 220, 2, 1393, 1394, 5, 417, 209, 2, 1394, 1395, 5, 419, 210, 2, 1395, 1396, 5, 425, 213, 2, 1396, 1397, 5, 439, 220, 2, 1397, 1398, 5, 447, 224, 2, 1398, 1399, 5, 451, 226, 2, 1399, 1400, 5, 445, 223, 2, 1400, 1401, 5, 447, 224, 2, 1401, 302, 3, 2, 2, 2, 1402, 1403, 5, 461, 231, 2, 1403, 1404, 5, 421, 211, 2, 1404, 1405, 5, 421, 211, 2, 1405, 304, 3, 2, 2, 2, 1406, 1407, 5, 421, 211, 2, 1407, 1408, 5, 439, 220, 2, 1408, 1409, 5, 457, 229, 2, 1409, 1410, 5, 453, 227, 2, 1410, 1411, 5, 455, 228, 2, 1411, 1412, 5, 425, 213, 2, 1412, 1413, 5, 451, 226, 2, 1413, 1414, 5, 421, 211, 2, 1414, 1415, 5, 445, 223, 2, 1415, 1416, 5, 425, 213, 2, 1416, 1417, 5, 427, 214, 2, 1417, 1418, 5, 427, 214, 2, 1418, 306, 3, 2, 2, 2, 1419, 1420, 5, 441, 221, 2, 1420, 1421, 5, 417, 209, 2, 1421, 1422, 5, 463, 232, 2, 1422, 1423, 5, 433, 217, 2, 1423, 1424, 5, 441, 221, 2, 1424, 1425, 5, 457, 229, 2, 1425, 1426, 5, 441, 221, 2, 1426, 1427, 5, 437, 219, 2, 1427, 1428, 5, 447, 224, 2, 1428, 1429, 5, 439, 220, 2, 1429, 1430, 5, 425, 213, 2, 1430, 1431, 5, 463, 232, 2, 1431, 308, 3, 2, 2, 2, 1432, 1433, 5, 421, 211, 2, 1433, 1434, 5, 445, 223, 2, 1434, 1435, 5, 451, 226, 2, 1435, 1436, 5, 425, 213, 2, 1436, 1437, 5, 455, 228, 2, 1437, 1438, 5, 451, 226, 2, 1438, 1439, 5, 457, 229, 2, 1439, 1440, 5, 453, 227, 2, 1440, 1441, 5, 453, 227, 2, 1441, 310, 3, 2, 2, 2, 1442, 1443, 5, 447, 224, 2, 1443, 1444, 5, 427, 214, 2, 1444, 1445, 5, 443, 222, 2, 1445, 312, 3, 2, 2, 2, 1446, 1447, 5, 437, 219, 2, 1447, 1448, 5, 431, 216, 2, 1448, 1449, 5, 445, 223, 2, 1449, 1450, 5, 447, 224, 2, 1450, 1451, 5, 421, 211, 2, 1451, 1452, 5, 445, 223, 2, 1452, 1453, 5, 457, 229, 2, 1453, 1454, 5, 443, 222, 2, 1454, 1455, 5, 455, 228, 2, 1455, 314, 3, 2, 2, 2, 1456, 1457, 5, 437, 219, 2, 1457, 1458, 5, 431, 216, 2, 1458, 1459, 5, 445, 223, 2, 1459, 1460, 5, 447, 224, 2, 1460, 1461, 5, 443, 222, 2, 1461, 1462, 5, 425, 213, 2, 1462, 1463, 5, 433, 217, 2, 1463, 1464, 5, 429, 215, 2, 1464, 1465, 5, 431, 216, 2, 1465, 1466, 5, 419, 210, 2, 1466, 1467, 5, 445, 223, 2, 1467, 1468, 5, 451, 226, 2, 1468, 316, 3, 2, 2, 2, 1469, 1470, 5, 453, 227, 2, 1470, 1471, 5, 431, 216, 2, 1471, 1472, 5, 445, 223, 2, 1472, 1473, 5, 451, 226, 2, 1473, 1474, 5, 455, 228, 2, 1474, 1475, 5, 425, 213, 2, 1475, 1476, 5, 453, 227, 2, 1476, 1477, 5, 455, 228, 2, 1477, 1478, 5, 447, 224, 2, 1478, 1479, 5, 417, 209, 2, 1479, 1480, 5, 455, 228, 2, 1480, 1481, 5, 431, 216, 2, 1481, 1482, 5, 421, 211, 2, 1482, 1483, 5, 445, 223, 2, 1483, 1484, 5, 457, 229, 2, 1484, 1485, 5, 443, 222, 2, 1485, 1486, 5, 455, 228, 2, 1486, 318, 3, 2, 2, 2, 1487, 1488, 5, 439, 220, 2, 1488, 1489, 5, 445, 223, 2, 1489, 1490, 5, 457, 229, 2, 1490, 1491, 5, 459, 230, 2, 1491, 1492, 5, 417, 209, 2, 1492, 1493, 5, 433, 217, 2, 1493, 1494, 5, 443, 222, 2, 1494, 320, 3, 2, 2, 2, 1495, 1496, 5, 433, 217, 2, 1496, 1497, 5, 421, 211, 2, 1497, 1498, 7, 51, 2, 2, 1498, 1499, 7, 54, 2, 2, 1499, 322, 3, 2, 2, 2, 1500, 1501, 5, 433, 217, 2, 1501, 1502, 5, 443, 222, 2, 1502, 1503, 5, 421, 211, 2, 1503, 1504, 5, 451, 226, 2, 1504, 1505, 5, 425, 213, 2, 1505, 1506, 5, 417, 209, 2, 1506, 1507, 5, 453, 227, 2, 1507, 1508, 5, 425, 213, 2, 1508, 324, 3, 2, 2, 2, 1509, 1510, 5, 433, 217, 2, 1510, 1511, 5, 443, 222, 2, 1511, 1512, 5, 453, 227, 2, 1512, 1513, 5, 425, 213, 2, 1513, 1514, 5, 451, 226, 2, 1514, 1515, 5, 455, 228, 2, 1515, 1516, 7, 34, 2, 2, 1516, 1517, 5, 423, 212, 2, 1517, 1518, 5, 417, 209, 2, 1518, 1519, 5, 455, 228, 2, 1519, 1520, 5, 417, 209, 2, 1520, 326, 3, 2, 2, 2, 1521, 1522, 5, 423, 212, 2, 1522, 1523, 5, 425, 213, 2, 1523, 1524, 5, 439, 220, 2, 1524, 1525, 5, 425, 213, 2, 1525, 1526, 5, 455, 228, 2, 1526, 1527, 5, 425, 213, 2, 1527, 1528, 7, 34, 2, 2, 1528, 1529, 5, 423, 212, 2, 1529, 1530, 5, 417, 209, 2, 1530, 1531, 5, 455, 228, 2, 1531, 1532, 5, 417, 209, 2, 1532, 328, 3, 2, 2, 2, 1533, 1534, 5, 423, 212, 2, 1534, 1535, 5, 425, 213, 2, 1535, 1536, 5, 439, 220, 2, 1536, 1537, 5, 425, 213, 2, 1537, 1538, 5, 455, 228, 2, 1538, 1539, 5, 425, 213, 2, 1539, 1540, 7, 34, 2, 2, 1540, 1541, 5, 461, 231, 2, 1541, 1542, 5, 431, 216, 2, 1542, 1543, 5, 425, 213, 2, 1543, 1544, 5, 451, 226, 2, 1544, 1545, 5, 425, 213, 2, 1545, 330, 3, 2, 2, 2, 1546, 1547, 5, 425, 213, 2, 1547, 1548, 5, 443, 222, 2, 1548, 1549, 5, 421, 211, 2, 1549, 1550, 5, 445, 223, 2, 1550, 1551, 5, 423, 212, 2, 1551, 1552, 5, 425, 213, 2, 1552, 1553, 7, 97, 2, 2, 1553, 1554, 5, 427, 214, 2, 1554, 1555, 5, 445, 223, 2, 1555, 1556, 5, 451, 226, 2, 1556, 1557, 7, 97, 2, 2, 1557, 1558, 5, 457, 229, 2, 1558, 1559, 5, 451, 226, 2, 1559, 1560, 5, 433, 217, 2, 1560, 332, 3, 2, 2, 2, 1561, 1562, 5, 441, 221, 2, 1562, 1563, 5, 423, 212, 2, 1563, 1564, 7, 55, 2, 2, 1564, 334, 3, 2, 2, 2, 1565, 1566, 5, 453, 227, 2, 1566, 1567, 5, 431, 216, 2, 1567, 1568, 5, 417, 209, 2, 1568, 1569, 7, 51, 2, 2, 1569, 336, 3, 2, 2, 2, 1570, 1571, 5, 453, 227, 2, 1571, 1572, 5, 431, 216, 2, 1572, 1573, 5, 417, 209, 2, 1573, 1574, 7, 52, 2, 2, 1574, 1575, 7, 55, 2, 2, 1575, 1576, 7, 56, 2, 2, 1576, 338, 3, 2, 2, 2, 1577, 1578, 5, 453, 227, 2, 1578, 1579, 5, 431, 216, 2, 1579, 1580, 5, 417, 209, 2, 1580, 1581, 7, 53, 2, 2, 1581, 1582, 7, 58, 2, 2, 1582, 1583, 7, 54, 2, 2, 1583, 340, 3, 2, 2, 2, 1584, 1585, 5, 453, 227, 2, 1585, 1586, 5, 431, 216, 2, 1586, 1587, 5, 417, 209, 2, 1587, 1588, 7, 55, 2, 2, 1588, 1589, 7, 51, 2, 2, 1589, 1590, 7, 52, 2, 2, 1590, 342, 3, 2, 2, 2, 1591, 1592, 5, 429, 215, 2, 1592, 1593, 5, 451, 226, 2, 1593, 1594, 5, 445, 223, 2, 1594, 1595, 5, 457, 229, 2, 1595, 1596, 5, 447, 224, 2, 1596, 1597, 7, 97, 2, 2, 1597, 1598, 5, 421, 211, 2, 1598, 1599, 5, 445, 223, 2, 1599, 1600, 5, 443, 222, 2, 1600, 1601, 5, 421, 211, 2, 1601, 1602, 5, 417, 209, 2, 1602, 1603, 5, 455, 228, 2, 1603, 344, 3, 2, 2, 2, 1604, 1608, 7, 62, 2, 2, 1605, 1607, 10, 2, 2, 2, 1606, 1605, 3, 2, 2, 2, 1607, 1610, 3, 2, 2, 2, 1608, 1606, 3, 2, 2, 2, 1608, 1609, 3, 2, 2, 2, 1609, 1611, 3, 2, 2, 2, 1610, 1608, 3, 2, 2, 2, 1611, 1612, 7, 64, 2, 2, 1612, 346, 3, 2, 2, 2, 1613, 1615, 5, 403, 202, 2, 1614, 1613, 3, 2, 2, 2, 1614, 1615, 3, 2, 2, 2, 1615, 1616, 3, 2, 2, 2, 1616, 1617, 7, 60, 2, 2, 1617, 348, 3, 2, 2, 2, 1618, 1619, 5, 347, 174, 2, 1619, 1620, 5, 405, 203, 2, 1620, 350, 3, 2, 2, 2, 1621, 1622, 7, 97, 2, 2, 1622, 1623, 7, 60, 2, 2, 1623, 1626, 3, 2, 2, 2, 1624, 1627, 5, 397, 199, 2, 1625, 1627, 9, 3, 2, 2, 1626, 1624, 3, 2, 2, 2, 1626, 1625, 3, 2, 2, 2, 1627, 1636, 3, 2, 2, 2, 1628, 1631, 5, 401, 201, 2, 1629, 1631, 7, 48, 2, 2, 1630, 1628, 3, 2, 2, 2, 1630, 1629, 3, 2, 2, 2, 1631, 1634, 3, 2, 2, 2, 1632, 1630, 3, 2, 2, 2, 1632, 1633, 3, 2, 2, 2, 1633, 1635, 3, 2, 2, 2, 1634, 1632, 3, 2, 2, 2, 1635, 1637, 5, 401, 201, 2, 1636, 1632, 3, 2, 2, 2, 1636, 1637, 3, 2, 2, 2, 1637, 352, 3, 2, 2, 2, 1638, 1639, 7, 65, 2, 2, 1639, 1640, 5, 399, 200, 2, 1640, 354, 3, 2, 2, 2, 1641, 1642, 7, 38, 2, 2, 1642, 1643, 5, 399, 200, 2, 1643, 356, 3, 2, 2, 2, 1644, 1646, 7, 66, 2, 2, 1645, 1647, 9, 4, 2, 2, 1646, 1645, 3, 2, 2, 2, 1647, 1648, 3, 2, 2, 2, 1648, 1646, 3, 2, 2, 2, 1648, 1649, 3, 2, 2, 2, 1649, 1658, 3, 2, 2, 2, 1650, 1652, 7, 47, 2, 2, 1651, 1653, 9, 5, 2, 2, 1652, 1651, 3, 2, 2, 2, 1653, 1654, 3, 2, 2, 2, 1654, 1652, 3, 2, 2, 2, 1654, 1655, 3, 2, 2, 2, 1655, 1657, 3, 2, 2, 2, 1656, 1650, 3, 2, 2, 2, 1657, 1660, 3, 2, 2, 2, 1658, 1656, 3, 2, 2, 2, 1658, 1659, 3, 2, 2, 2, 1659, 358, 3, 2, 2, 2, 1660, 1658, 3, 2, 2, 2, 1661, 1663, 9, 3, 2, 2, 1662, 1661, 3, 2, 2, 2, 1663, 1664, 3, 2, 2, 2, 1664, 1662, 3, 2, 2, 2, 1664, 1665, 3, 2, 2, 2, 1665, 360, 3, 2, 2, 2, 1666, 1668, 9, 3, 2, 2, 1667, 1666, 3, 2, 2, 2, 1668, 1671, 3, 2, 2, 2, 1669, 1667, 3, 2, 2, 2, 1669, 1670, 3, 2, 2, 2, 1670, 1672, 3, 2, 2, 2, 1671, 1669, 3, 2, 2, 2, 1672, 1674, 7, 48, 2, 2, 1673, 1675, 9, 3, 2, 2, 1674, 1673, 3, 2, 2, 2, 1675, 1676, 3, 2, 2, 2, 1676, 1674, 3, 2, 2, 2, 1676, 1677, 3, 2, 2, 2, 1677, 362, 3, 2, 2, 2, 1678, 1680, 9, 3, 2, 2, 1679, 1678, 3, 2, 2, 2, 1680, 1681, 3, 2, 2, 2, 1681, 1679, 3, 2, 2, 2, 1681, 1682, 3, 2, 2, 2, 1682, 1683, 3, 2, 2, 2, 1683, 1687, 7, 48, 2, 2, 1684, 1686, 9, 3, 2, 2, 1685, 1684, 3, 2, 2, 2, 1686, 1689, 3, 2, 2, 2, 1687, 1685, 3, 2, 2, 2, 1687, 1688, 3, 2, 2, 2, 1688, 1690, 3, 2, 2, 2, 1689, 1687, 3, 2, 2, 2, 1690, 1705, 5, 377, 189, 2, 1691, 1693, 7, 48, 2, 2, 1692, 1694, 9, 3, 2, 2, 1693, 1692, 3, 2, 2, 2, 1694, 1695, 3, 2, 2, 2, 1695, 1693, 3, 2, 2, 2, 1695, 1696, 3, 2, 2, 2, 1696, 1697, 3, 2, 2, 2, 1697, 1705, 5, 377, 189, 2, 1698, 1700, 9, 3, 2, 2, 1699, 1698, 3, 2, 2, 2, 1700, 1701, 3, 2, 2, 2, 1701, 1699, 3, 2, 2, 2, 1701, 1702, 3, 2, 2, 2, 1702, 1703, 3, 2, 2, 2, 1703, 1705, 5, 377, 189, 2, 1704, 1679, 3, 2, 2, 2, 1704, 1691, 3, 2, 2, 2, 1704, 1699, 3, 2, 2, 2, 1705, 364, 3, 2, 2, 2, 1706, 1707, 7, 45, 2, 2, 1707, 1708, 5, 359, 180, 2, 1708, 366, 3, 2, 2, 2, 1709, 1710, 7, 45, 2, 2, 1710, 1711, 5, 361, 181, 2, 1711, 368, 3, 2, 2, 2, 1712, 1713, 7, 45, 2, 2, 1713, 1714, 5, 363, 182, 2, 1714, 370, 3, 2, 2, 2, 1715, 1716, 7, 47, 2, 2, 1716, 1717, 5, 359, 180, 2, 1717, 372, 3, 2, 2, 2, 1718, 1719, 7, 47, 2, 2, 1719, 1720, 5, 361, 181, 2, 1720, 374, 3, 2, 2, 2, 1721, 1722, 7, 47, 2, 2, 1722, 1723, 5, 363, 182, 2, 1723, 376, 3, 2, 2, 2, 1724, 1726, 9, 6, 2, 2, 1725, 1727, 9, 7, 2, 2, 1726, 1725, 3, 2, 2, 2, 1726, 1727, 3, 2, 2, 2, 1727, 1729, 3, 2, 2, 2, 1728, 1730, 9, 3, 2, 2, 1729, 1728, 3, 2, 2, 2, 1730, 1731, 3, 2, 2, 2, 1731, 1729, 3, 2, 2, 2, 1731, 1732, 3, 2, 2, 2, 1732, 378, 3, 2, 2, 2, 1733, 1738, 7, 41, 2, 2, 1734, 1737, 10, 8, 2, 2, 1735, 1737, 5, 387, 194, 2, 1736, 1734, 3, 2, 2, 2, 1736, 1735, 3, 2, 2, 2, 1737, 1740, 3, 2, 2, 2, 1738, 1736, 3, 2, 2, 2, 1738, 1739, 3, 2, 2, 2, 1739, 1741, 3, 2, 2, 2, 1740, 1738, 3, 2, 2, 2, 1741, 1742, 7, 41, 2, 2, 1742, 380, 3, 2, 2, 2, 1743, 1748, 7, 36, 2, 2, 1744, 1747, 10, 9, 2, 2, 1745, 1747, 5, 387, 194, 2, 1746, 1744, 3, 2, 2, 2, 1746, 1745, 3, 2, 2, 2, 1747, 1750, 3, 2, 2, 2, 1748, 1746, 3, 2, 2, 2, 1748, 1749, 3, 2, 2, 2, 1749, 1751, 3, 2, 2, 2, 1750, 1748, 3, 2, 2, 2, 1751, 1752, 7, 36, 2, 2, 1752, 382, 3, 2, 2, 2, 1753, 1754, 7, 41, 2, 2, 1754, 1755, 7, 41, 2, 2, 1755, 1756, 7, 41, 2, 2, 1756, 1768, 3, 2, 2, 2, 1757, 1761, 7, 41, 2, 2, 1758, 1759, 7, 41, 2, 2, 1759, 1761, 7, 41, 2, 2, 1760, 1757, 3, 2, 2, 2, 1760, 1758, 3, 2, 2, 2, 1760, 1761, 3, 2, 2, 2, 1761, 1764, 3, 2, 2, 2, 1762, 1765, 9, 10, 2, 2, 1763, 1765, 5, 387, 194, 2, 1764, 1762, 3, 2, 2, 2, 1764, 1763, 3, 2, 2, 2, 1765, 1767, 3, 2, 2, 2, 1766, 1760, 3, 2, 2, 2, 1767, 1770, 3, 2, 2, 2, 1768, 1766, 3, 2, 2, 2, 1768, 1769, 3, 2, 2, 2, 1769, 1771, 3, 2, 2, 2, 1770, 1768, 3, 2, 2, 2, 1771, 1772, 7, 41, 2, 2, 1772, 1773, 7, 41, 2, 2, 1773, 1774, 7, 41, 2, 2, 1774, 384, 3, 2, 2, 2, 1775, 1776, 7, 36, 2, 2, 1776, 1777, 7, 36, 2, 2, 1777, 1778, 7, 36, 2, 2, 1778, 1790, 3, 2, 2, 2, 1779, 1783, 7, 36, 2, 2, 1780, 1781, 7, 36, 2, 2, 1781, 1783, 7, 36, 2, 2, 1782, 1779, 3, 2, 2, 2, 1782, 1780, 3, 2, 2, 2, 1782, 1783, 3, 2, 2, 2, 1783, 1786, 3, 2, 2, 2, 1784, 1787, 9, 11, 2, 2, 1785, 1787, 5, 387, 194, 2, 1786, 1784, 3, 2, 2, 2, 1786, 1785, 3, 2, 2, 2, 1787, 1789, 3, 2, 2, 2, 1788, 1782, 3, 2, 2, 2, 1789, 1792, 3, 2, 2, 2, 1790, 1788, 3, 2, 2, 2, 1790, 1791, 3, 2, 2, 2, 1791, 1793, 3, 2, 2, 2, 1792, 1790, 3, 2, 2, 2, 1793, 1794, 7, 36, 2, 2, 1794, 1795, 7, 36, 2, 2, 1795, 1796, 7, 36, 2, 2, 1796, 386, 3, 2, 2, 2, 1797, 1798, 7, 94, 2, 2, 1798, 1799, 9, 12, 2, 2, 1799, 388, 3, 2, 2, 2, 1800, 1804, 7, 42, 2, 2, 1801, 1803, 5, 391, 196, 2, 1802, 1801, 3, 2, 2, 2, 1803, 1806, 3, 2, 2, 2, 1804, 1802, 3, 2, 2, 2, 1804, 1805, 3, 2, 2, 2, 1805, 1807, 3, 2, 2, 2, 1806, 1804, 3, 2, 2, 2, 1807, 1808, 7, 43, 2, 2, 1808, 390, 3, 2, 2, 2, 1809, 1810, 9, 13, 2, 2, 1810, 1811, 3, 2, 2, 2, 1811, 1812, 8, 196, 2, 2, 1812, 392, 3, 2, 2, 2, 1813, 1817, 7, 93, 2, 2, 1814, 1816, 5, 391, 196, 2, 1815, 1814, 3, 2, 2, 2, 1816, 1819, 3, 2, 2, 2, 1817, 1815, 3, 2, 2, 2, 1817, 1818, 3, 2, 2, 2, 1818, 1820, 3, 2, 2, 2, 1819, 1817, 3, 2, 2, 2, 1820, 1821, 7, 95, 2, 2, 1821, 394, 3, 2, 2, 2, 1822, 1824, 9, 45, 2, 2, 1823, 1822, 3, 2, 2, 2, 1824, 396, 3, 2, 2, 2, 1825, 1828, 5, 395, 198, 2, 1826, 1828, 7, 97, 2, 2, 1827, 1825, 3, 2, 2, 2, 1827, 1826, 3, 2, 2, 2, 1828, 398, 3, 2, 2, 2, 1829, 1832, 5, 397, 199, 2, 1830, 1832, 9, 3, 2, 2, 1831, 1829, 3, 2, 2, 2, 1831, 1830, 3, 2, 2, 2, 1832, 1837, 3, 2, 2, 2, 1833, 1836, 5, 397, 199, 2, 1834, 1836, 9, 14, 2, 2, 1835, 1833, 3, 2, 2, 2, 1835, 1834, 3, 2, 2, 2, 1836, 1839, 3, 2, 2, 2, 1837, 1835, 3, 2, 2, 2, 1837, 1838, 3, 2, 2, 2, 1838, 400, 3, 2, 2, 2, 1839, 1837, 3, 2, 2, 2, 1840, 1843, 5, 397, 199, 2, 1841, 1843, 9, 15, 2, 2, 1842, 1840, 3, 2, 2, 2, 1842, 1841, 3, 2, 2, 2, 1843, 402, 3, 2, 2, 2, 1844, 1853, 5, 395, 198, 2, 1845, 1848, 5, 401, 201, 2, 1846, 1848, 7, 48, 2, 2, 1847, 1845, 3, 2, 2, 2, 1847, 1846, 3, 2, 2, 2, 1848, 1851, 3, 2, 2, 2, 1849, 1847, 3, 2, 2, 2, 1849, 1850, 3, 2, 2, 2, 1850, 1852, 3, 2, 2, 2, 1851, 1849, 3, 2, 2, 2, 1852, 1854, 5, 401, 201, 2, 1853, 1849, 3, 2, 2, 2, 1853, 1854, 3, 2, 2, 2, 1854, 404, 3, 2, 2, 2, 1855, 1859, 5, 397, 199, 2, 1856, 1859, 4, 50, 60, 2, 1857, 1859, 5, 407, 204, 2, 1858, 1855, 3, 2, 2, 2, 1858, 1856, 3, 2, 2, 2, 1858, 1857, 3, 2, 2, 2, 1859, 1873, 3, 2, 2, 2, 1860, 1864, 5, 401, 201, 2, 1861, 1864, 9, 16, 2, 2, 1862, 1864, 5, 407, 204, 2, 1863, 1860, 3, 2, 2, 2, 1863, 1861, 3, 2, 2, 2, 1863, 1862, 3, 2, 2, 2, 1864, 1867, 3, 2, 2, 2, 1865, 1863, 3, 2, 2, 2, 1865, 1866, 3, 2, 2, 2, 1866, 1871, 3, 2, 2, 2, 1867, 1865, 3, 2, 2, 2, 1868, 1872, 5, 401, 201, 2, 1869, 1872, 7, 60, 2, 2, 1870, 1872, 5, 407, 204, 2, 1871, 1868, 3, 2, 2, 2, 1871, 1869, 3, 2, 2, 2, 1871, 1870, 3, 2, 2, 2, 1872, 1874, 3, 2, 2, 2, 1873, 1865, 3, 2, 2, 2, 1873, 1874, 3, 2, 2, 2, 1874, 406, 3, 2, 2, 2, 1875, 1878, 5, 409, 205, 2, 1876, 1878, 5, 413, 207, 2, 1877, 1875, 3, 2, 2, 2, 1877, 1876, 3, 2, 2, 2, 1878, 408, 3, 2, 2, 2, 1879, 1880, 7, 39, 2, 2, 1880, 1881, 5, 411, 206, 2, 1881, 1882, 5, 411, 206, 2, 1882, 410, 3, 2, 2, 2, 1883, 1885, 9, 17, 2, 2, 1884, 1883, 3, 2, 2, 2, 1885, 412, 3, 2, 2, 2, 1886, 1887, 7, 94, 2, 2, 1887, 1888, 9, 18, 2, 2, 1888, 414, 3, 2, 2, 2, 1889, 1893, 7, 37, 2, 2, 1890, 1892, 10, 19, 2, 2, 1891, 1890, 3, 2, 2, 2, 1892, 1895, 3, 2, 2, 2, 1893, 1891, 3, 2, 2, 2, 1893, 1894, 3, 2, 2, 2, 1894, 1896, 3, 2, 2, 2, 1895, 1893, 3, 2, 2, 2, 1896, 1897, 8, 208, 3, 2, 1897, 416, 3, 2, 2, 2, 1898, 1899, 9, 20, 2, 2, 1899, 418, 3, 2, 2, 2, 1900, 1901, 9, 21, 2, 2, 1901, 420, 3, 2, 2, 2, 1902, 1903, 9, 22, 2, 2, 1903, 422, 3, 2, 2, 2, 1904, 1905, 9, 23, 2, 2, 1905, 424, 3, 2, 2, 2, 1906, 1907, 9, 6, 2, 2, 1907, 426, 3, 2, 2, 2, 1908, 1909, 9, 24, 2, 2, 1909, 428, 3, 2, 2, 2, 1910, 1911, 9, 25, 2, 2, 1911, 430, 3, 2, 2, 2, 1912, 1913, 9, 26, 2, 2, 1913, 432, 3, 2, 2, 2, 1914, 1915, 9, 27, 2, 2, 1915, 434, 3, 2, 2, 2, 1916, 1917, 9, 28, 2, 2, 1917, 436, 3, 2, 2, 2, 1918, 1919, 9, 29, 2, 2, 1919, 438, 3, 2, 2, 2, 1920, 1921, 9, 30, 2, 2, 1921, 440, 3, 2, 2, 2, 1922, 1923, 9, 31, 2, 2, 1923, 442, 3, 2, 2, 2, 1924, 1925, 9, 32, 2, 2, 1925, 444, 3, 2, 2, 2, 1926, 1927, 9, 33, 2, 2, 1927, 446, 3, 2, 2, 2, 1928, 1929, 9, 34, 2, 2, 1929, 448, 3, 2, 2, 2, 1930, 1931, 9, 35, 2, 2, 1931, 450, 3, 2, 2, 2, 1932, 1933, 9, 36, 2, 2, 1933, 452, 3, 2, 2, 2, 1934, 1935, 9, 37, 2, 2, 1935, 454, 3, 2, 2, 2, 1936, 1937, 9, 38, 2, 2, 1937, 456, 3, 2, 2, 2, 1938, 1939, 9, 39, 2, 2, 1939, 458, 3, 2, 2, 2, 1940, 1941, 9, 40, 2, 2, 1941, 460, 3, 2, 2, 2, 1942, 1943, 9, 41, 2, 2, 1943, 462, 3, 2, 2, 2, 1944, 1945, 9, 42, 2, 2, 1945, 464, 3, 2, 2, 2, 1946, 1947, 9, 43, 2, 2, 1947, 466, 3, 2, 2, 2, 1948, 1949, 9, 44, 2, 2, 1949, 468, 3, 2, 2, 2, 51, 2, 1608, 1614, 1626, 1630, 1632, 1636, 1648, 1654, 1658, 1664, 1669, 1676, 1681, 1687, 1695, 1701, 1704, 1726, 1731, 1736, 1738, 1746, 1748, 1760, 1764, 1768, 1782, 1786, 1790, 1804, 1817, 1823, 1827, 1831, 1835, 1837, 1842, 1847, 1849, 1853, 1858, 1863, 1865, 1871, 1873, 1877, 1884, 1893, 4, 8, 2, 2, 2, 3, 2]
\ No newline at end of file
+[3, 24715, 42794, 33075, 47597, 16764, 15335, 30598, 22884, 2, 209, 1950, 8, 1, 4, 2, 9, 2, 4, 3, 9, 3, 4, 4, 9, 4, 4, 5, 9, 5, 4, 6, 9, 6, 4, 7, 9, 7, 4, 8, 9, 8, 4, 9, 9, 9, 4, 10, 9, 10, 4, 11, 9, 11, 4, 12, 9, 12, 4, 13, 9, 13, 4, 14, 9, 14, 4, 15, 9, 15, 4, 16, 9, 16, 4, 17, 9, 17, 4, 18, 9, 18, 4, 19, 9, 19, 4, 20, 9, 20, 4, 21, 9, 21, 4, 22, 9, 22, 4, 23, 9, 23, 4, 24, 9, 24, 4, 25, 9, 25, 4, 26, 9, 26, 4, 27, 9, 27, 4, 28, 9, 28, 4, 29, 9, 29, 4, 30, 9, 30, 4, 31, 9, 31, 4, 32, 9, 32, 4, 33, 9, 33, 4, 34, 9, 34, 4, 35, 9, 35, 4, 36, 9, 36, 4, 37, 9, 37, 4, 38, 9, 38, 4, 39, 9, 39, 4, 40, 9, 40, 4, 41, 9, 41, 4, 42, 9, 42, 4, 43, 9, 43, 4, 44, 9, 44, 4, 45, 9, 45, 4, 46, 9, 46, 4, 47, 9, 47, 4, 48, 9, 48, 4, 49, 9, 49, 4, 50, 9, 50, 4, 51, 9, 51, 4, 52, 9, 52, 4, 53, 9, 53, 4, 54, 9, 54, 4, 55, 9, 55, 4, 56, 9, 56, 4, 57, 9, 57, 4, 58, 9, 58, 4, 59, 9, 59, 4, 60, 9, 60, 4, 61, 9, 61, 4, 62, 9, 62, 4, 63, 9, 63, 4, 64, 9, 64, 4, 65, 9, 65, 4, 66, 9, 66, 4, 67, 9, 67, 4, 68, 9, 68, 4, 69, 9, 69, 4, 70, 9, 70, 4, 71, 9, 71, 4, 72, 9, 72, 4, 73, 9, 73, 4, 74, 9, 74, 4, 75, 9, 75, 4, 76, 9, 76, 4, 77, 9, 77, 4, 78, 9, 78, 4, 79, 9, 79, 4, 80, 9, 80, 4, 81, 9, 81, 4, 82, 9, 82, 4, 83, 9, 83, 4, 84, 9, 84, 4, 85, 9, 85, 4, 86, 9, 86, 4, 87, 9, 87, 4, 88, 9, 88, 4, 89, 9, 89, 4, 90, 9, 90, 4, 91, 9, 91, 4, 92, 9, 92, 4, 93, 9, 93, 4, 94, 9, 94, 4, 95, 9, 95, 4, 96, 9, 96, 4, 97, 9, 97, 4, 98, 9, 98, 4, 99, 9, 99, 4, 100, 9, 100, 4, 101, 9, 101, 4, 102, 9, 102, 4, 103, 9, 103, 4, 104, 9, 104, 4, 105, 9, 105, 4, 106, 9, 106, 4, 107, 9, 107, 4, 108, 9, 108, 4, 109, 9, 109, 4, 110, 9, 110, 4, 111, 9, 111, 4, 112, 9, 112, 4, 113, 9, 113, 4, 114, 9, 114, 4, 115, 9, 115, 4, 116, 9, 116, 4, 117, 9, 117, 4, 118, 9, 118, 4, 119, 9, 119, 4, 120, 9, 120, 4, 121, 9, 121, 4, 122, 9, 122, 4, 123, 9, 123, 4, 124, 9, 124, 4, 125, 9, 125, 4, 126, 9, 126, 4, 127, 9, 127, 4, 128, 9, 128, 4, 129, 9, 129, 4, 130, 9, 130, 4, 131, 9, 131, 4, 132, 9, 132, 4, 133, 9, 133, 4, 134, 9, 134, 4, 135, 9, 135, 4, 136, 9, 136, 4, 137, 9, 137, 4, 138, 9, 138, 4, 139, 9, 139, 4, 140, 9, 140, 4, 141, 9, 141, 4, 142, 9, 142, 4, 143, 9, 143, 4, 144, 9, 144, 4, 145, 9, 145, 4, 146, 9, 146, 4, 147, 9, 147, 4, 148, 9, 148, 4, 149, 9, 149, 4, 150, 9, 150, 4, 151, 9, 151, 4, 152, 9, 152, 4, 153, 9, 153, 4, 154, 9, 154, 4, 155, 9, 155, 4, 156, 9, 156, 4, 157, 9, 157, 4, 158, 9, 158, 4, 159, 9, 159, 4, 160, 9, 160, 4, 161, 9, 161, 4, 162, 9, 162, 4, 163, 9, 163, 4, 164, 9, 164, 4, 165, 9, 165, 4, 166, 9, 166, 4, 167, 9, 167, 4, 168, 9, 168, 4, 169, 9, 169, 4, 170, 9, 170, 4, 171, 9, 171, 4, 172, 9, 172, 4, 173, 9, 173, 4, 174, 9, 174, 4, 175, 9, 175, 4, 176, 9, 176, 4, 177, 9, 177, 4, 178, 9, 178, 4, 179, 9, 179, 4, 180, 9, 180, 4, 181, 9, 181, 4, 182, 9, 182, 4, 183, 9, 183, 4, 184, 9, 184, 4, 185, 9, 185, 4, 186, 9, 186, 4, 187, 9, 187, 4, 188, 9, 188, 4, 189, 9, 189, 4, 190, 9, 190, 4, 191, 9, 191, 4, 192, 9, 192, 4, 193, 9, 193, 4, 194, 9, 194, 4, 195, 9, 195, 4, 196, 9, 196, 4, 197, 9, 197, 4, 198, 9, 198, 4, 199, 9, 199, 4, 200, 9, 200, 4, 201, 9, 201, 4, 202, 9, 202, 4, 203, 9, 203, 4, 204, 9, 204, 4, 205, 9, 205, 4, 206, 9, 206, 4, 207, 9, 207, 4, 208, 9, 208, 4, 209, 9, 209, 4, 210, 9, 210, 4, 211, 9, 211, 4, 212, 9, 212, 4, 213, 9, 213, 4, 214, 9, 214, 4, 215, 9, 215, 4, 216, 9, 216, 4, 217, 9, 217, 4, 218, 9, 218, 4, 219, 9, 219, 4, 220, 9, 220, 4, 221, 9, 221, 4, 222, 9, 222, 4, 223, 9, 223, 4, 224, 9, 224, 4, 225, 9, 225, 4, 226, 9, 226, 4, 227, 9, 227, 4, 228, 9, 228, 4, 229, 9, 229, 4, 230, 9, 230, 4, 231, 9, 231, 4, 232, 9, 232, 4, 233, 9, 233, 4, 234, 9, 234, 3, 2, 3, 2, 3, 3, 3, 3, 3, 4, 3, 4, 3, 5, 3, 5, 3, 6, 3, 6, 3, 7, 3, 7, 3, 8, 3, 8, 3, 9, 3, 9, 3, 10, 3, 10, 3, 11, 3, 11, 3, 12, 3, 12, 3, 13, 3, 13, 3, 14, 3, 14, 3, 15, 3, 15, 3, 16, 3, 16, 3, 17, 3, 17, 3, 18, 3, 18, 3, 19, 3, 19, 3, 19, 3, 20, 3, 20, 3, 20, 3, 21, 3, 21, 3, 22, 3, 22, 3, 22, 3, 23, 3, 23, 3, 24, 3, 24, 3, 25, 3, 25, 3, 25, 3, 26, 3, 26, 3, 26, 3, 27, 3, 27, 3, 28, 3, 28, 3, 28, 3, 29, 3, 29, 3, 29, 3, 29, 3, 29, 3, 30, 3, 30, 3, 30, 3, 30, 3, 30, 3, 30, 3, 31, 3, 31, 3, 31, 3, 31, 3, 32, 3, 32, 3, 32, 3, 32, 3, 32, 3, 33, 3, 33, 3, 33, 3, 33, 3, 33, 3, 33, 3, 34, 3, 34, 3, 34, 3, 35, 3, 35, 3, 35, 3, 35, 3, 36, 3, 36, 3, 36, 3, 36, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 38, 3, 38, 3, 38, 3, 39, 3, 39, 3, 39, 3, 39, 3, 39, 3, 39, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 41, 3, 41, 3, 41, 3, 41, 3, 41, 3, 41, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 44, 3, 44, 3, 44, 3, 44, 3, 44, 3, 44, 3, 45, 3, 45, 3, 45, 3, 46, 3, 46, 3, 46, 3, 46, 3, 46, 3, 47, 3, 47, 3, 47, 3, 47, 3, 47, 3, 48, 3, 48, 3, 48, 3, 48, 3, 48, 3, 48, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 53, 3, 53, 3, 53, 3, 53, 3, 54, 3, 54, 3, 54, 3, 54, 3, 54, 3, 54, 3, 55, 3, 55, 3, 55, 3, 55, 3, 55, 3, 55, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 57, 3, 57, 3, 57, 3, 57, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 59, 3, 59, 3, 59, 3, 59, 3, 59, 3, 60, 3, 60, 3, 60, 3, 60, 3, 60, 3, 61, 3, 61, 3, 61, 3, 61, 3, 61, 3, 61, 3, 62, 3, 62, 3, 62, 3, 62, 3, 62, 3, 63, 3, 63, 3, 63, 3, 64, 3, 64, 3, 64, 3, 64, 3, 65, 3, 65, 3, 65, 3, 65, 3, 66, 3, 66, 3, 66, 3, 66, 3, 66, 3, 67, 3, 67, 3, 67, 3, 68, 3, 68, 3, 68, 3, 68, 3, 68, 3, 69, 3, 69, 3, 69, 3, 69, 3, 69, 3, 70, 3, 70, 3, 70, 3, 70, 3, 70, 3, 71, 3, 71, 3, 71, 3, 71, 3, 71, 3, 71, 3, 72, 3, 72, 3, 72, 3, 72, 3, 72, 3, 72, 3, 73, 3, 73, 3, 73, 3, 73, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 75, 3, 75, 3, 75, 3, 75, 3, 75, 3, 75, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 77, 3, 77, 3, 77, 3, 77, 3, 77, 3, 77, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 80, 3, 80, 3, 80, 3, 80, 3, 81, 3, 81, 3, 81, 3, 81, 3, 81, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 85, 3, 85, 3, 85, 3, 85, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 89, 3, 89, 3, 89, 3, 89, 3, 89, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 91, 3, 91, 3, 91, 3, 91, 3, 91, 3, 92, 3, 92, 3, 92, 3, 92, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 94, 3, 94, 3, 94, 3, 94, 3, 94, 3, 94, 3, 95, 3, 95, 3, 95, 3, 95, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 102, 3, 102, 3, 102, 3, 102, 3, 102, 3, 102, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 105, 3, 105, 3, 105, 3, 105, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 108, 3, 108, 3, 108, 3, 108, 3, 108, 3, 108, 3, 109, 3, 109, 3, 109, 3, 109, 3, 109, 3, 109, 3, 110, 3, 110, 3, 110, 3, 110, 3, 110, 3, 110, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 112, 3, 112, 3, 112, 3, 112, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 115, 3, 115, 3, 115, 3, 115, 3, 115, 3, 115, 3, 116, 3, 116, 3, 116, 3, 116, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 118, 3, 118, 3, 118, 3, 118, 3, 118, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 120, 3, 120, 3, 120, 3, 120, 3, 120, 3, 120, 3, 121, 3, 121, 3, 121, 3, 122, 3, 122, 3, 122, 3, 122, 3, 122, 3, 122, 3, 123, 3, 123, 3, 123, 3, 123, 3, 123, 3, 124, 3, 124, 3, 124, 3, 124, 3, 124, 3, 124, 3, 125, 3, 125, 3, 125, 3, 125, 3, 125, 3, 125, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 128, 3, 128, 3, 128, 3, 128, 3, 128, 3, 128, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 130, 3, 130, 3, 130, 3, 130, 3, 130, 3, 130, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 141, 3, 141, 3, 141, 3, 141, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 145, 3, 145, 3, 145, 3, 146, 3, 146, 3, 146, 3, 146, 3, 146, 3, 146, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 148, 3, 148, 3, 148, 3, 148, 3, 149, 3, 149, 3, 149, 3, 149, 3, 149, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 152, 3, 152, 3, 152, 3, 152, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 156, 3, 156, 3, 156, 3, 156, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 161, 3, 161, 3, 161, 3, 161, 3, 161, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 167, 3, 167, 3, 167, 3, 167, 3, 168, 3, 168, 3, 168, 3, 168, 3, 168, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 173, 3, 173, 7, 173, 1607, 10, 173, 12, 173, 14, 173, 1610, 11, 173, 3, 173, 3, 173, 3, 174, 5, 174, 1615, 10, 174, 3, 174, 3, 174, 3, 175, 3, 175, 3, 175, 3, 176, 3, 176, 3, 176, 3, 176, 3, 176, 5, 176, 1627, 10, 176, 3, 176, 3, 176, 7, 176, 1631, 10, 176, 12, 176, 14, 176, 1634, 11, 176, 3, 176, 5, 176, 1637, 10, 176, 3, 177, 3, 177, 3, 177, 3, 178, 3, 178, 3, 178, 3, 179, 3, 179, 6, 179, 1647, 10, 179, 13, 179, 14, 179, 1648, 3, 179, 3, 179, 6, 179, 1653, 10, 179, 13, 179, 14, 179, 1654, 7, 179, 1657, 10, 179, 12, 179, 14, 179, 1660, 11, 179, 3, 180, 6, 180, 1663, 10, 180, 13, 180, 14, 180, 1664, 3, 181, 7, 181, 1668, 10, 181, 12, 181, 14, 181, 1671, 11, 181, 3, 181, 3, 181, 6, 181, 1675, 10, 181, 13, 181, 14, 181, 1676, 3, 182, 6, 182, 1680, 10, 182, 13, 182, 14, 182, 1681, 3, 182, 3, 182, 7, 182, 1686, 10, 182, 12, 182, 14, 182, 1689, 11, 182, 3, 182, 3, 182, 3, 182, 6, 182, 1694, 10, 182, 13, 182, 14, 182, 1695, 3, 182, 3, 182, 6, 182, 1700, 10, 182, 13, 182, 14, 182, 1701, 3, 182, 5, 182, 1705, 10, 182, 3, 183, 3, 183, 3, 183, 3, 184, 3, 184, 3, 184, 3, 185, 3, 185, 3, 185, 3, 186, 3, 186, 3, 186, 3, 187, 3, 187, 3, 187, 3, 188, 3, 188, 3, 188, 3, 189, 3, 189, 5, 189, 1727, 10, 189, 3, 189, 6, 189, 1730, 10, 189, 13, 189, 14, 189, 1731, 3, 190, 3, 190, 3, 190, 7, 190, 1737, 10, 190, 12, 190, 14, 190, 1740, 11, 190, 3, 190, 3, 190, 3, 191, 3, 191, 3, 191, 7, 191, 1747, 10, 191, 12, 191, 14, 191, 1750, 11, 191, 3, 191, 3, 191, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 5, 192, 1761, 10, 192, 3, 192, 3, 192, 5, 192, 1765, 10, 192, 7, 192, 1767, 10, 192, 12, 192, 14, 192, 1770, 11, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 5, 193, 1783, 10, 193, 3, 193, 3, 193, 5, 193, 1787, 10, 193, 7, 193, 1789, 10, 193, 12, 193, 14, 193, 1792, 11, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 194, 3, 194, 3, 194, 3, 195, 3, 195, 7, 195, 1803, 10, 195, 12, 195, 14, 195, 1806, 11, 195, 3, 195, 3, 195, 3, 196, 3, 196, 3, 196, 3, 196, 3, 197, 3, 197, 7, 197, 1816, 10, 197, 12, 197, 14, 197, 1819, 11, 197, 3, 197, 3, 197, 3, 198, 5, 198, 1824, 10, 198, 3, 199, 3, 199, 5, 199, 1828, 10, 199, 3, 200, 3, 200, 5, 200, 1832, 10, 200, 3, 200, 3, 200, 7, 200, 1836, 10, 200, 12, 200, 14, 200, 1839, 11, 200, 3, 201, 3, 201, 5, 201, 1843, 10, 201, 3, 202, 3, 202, 3, 202, 7, 202, 1848, 10, 202, 12, 202, 14, 202, 1851, 11, 202, 3, 202, 5, 202, 1854, 10, 202, 3, 203, 3, 203, 3, 203, 5, 203, 1859, 10, 203, 3, 203, 3, 203, 3, 203, 7, 203, 1864, 10, 203, 12, 203, 14, 203, 1867, 11, 203, 3, 203, 3, 203, 3, 203, 5, 203, 1872, 10, 203, 5, 203, 1874, 10, 203, 3, 204, 3, 204, 5, 204, 1878, 10, 204, 3, 205, 3, 205, 3, 205, 3, 205, 3, 206, 5, 206, 1885, 10, 206, 3, 207, 3, 207, 3, 207, 3, 208, 3, 208, 7, 208, 1892, 10, 208, 12, 208, 14, 208, 1895, 11, 208, 3, 208, 3, 208, 3, 209, 3, 209, 3, 210, 3, 210, 3, 211, 3, 211, 3, 212, 3, 212, 3, 213, 3, 213, 3, 214, 3, 214, 3, 215, 3, 215, 3, 216, 3, 216, 3, 217, 3, 217, 3, 218, 3, 218, 3, 219, 3, 219, 3, 220, 3, 220, 3, 221, 3, 221, 3, 222, 3, 222, 3, 223, 3, 223, 3, 224, 3, 224, 3, 225, 3, 225, 3, 226, 3, 226, 3, 227, 3, 227, 3, 228, 3, 228, 3, 229, 3, 229, 3, 230, 3, 230, 3, 231, 3, 231, 3, 232, 3, 232, 3, 233, 3, 233, 3, 234, 3, 234, 2, 2, 235, 3, 3, 5, 4, 7, 5, 9, 6, 11, 7, 13, 8, 15, 9, 17, 10, 19, 11, 21, 12, 23, 13, 25, 14, 27, 15, 29, 16, 31, 17, 33, 18, 35, 19, 37, 20, 39, 21, 41, 22, 43, 23, 45, 24, 47, 25, 49, 26, 51, 27, 53, 28, 55, 29, 57, 30, 59, 31, 61, 32, 63, 33, 65, 34, 67, 35, 69, 36, 71, 37, 73, 38, 75, 39, 77, 40, 79, 41, 81, 42, 83, 43, 85, 44, 87, 45, 89, 46, 91, 47, 93, 48, 95, 49, 97, 50, 99, 51, 101, 52, 103, 53, 105, 54, 107, 55, 109, 56, 111, 57, 113, 58, 115, 59, 117, 60, 119, 61, 121, 62, 123, 63, 125, 64, 127, 65, 129, 66, 131, 67, 133, 68, 135, 69, 137, 70, 139, 71, 141, 72, 143, 73, 145, 74, 147, 75, 149, 76, 151, 77, 153, 78, 155, 79, 157, 80, 159, 81, 161, 82, 163, 83, 165, 84, 167, 85, 169, 86, 171, 87, 173, 88, 175, 89, 177, 90, 179, 91, 181, 92, 183, 93, 185, 94, 187, 95, 189, 96, 191, 97, 193, 98, 195, 99, 197, 100, 199, 101, 201, 102, 203, 103, 205, 104, 207, 105, 209, 106, 211, 107, 213, 108, 215, 109, 217, 110, 219, 111, 221, 112, 223, 113, 225, 114, 227, 115, 229, 116, 231, 117, 233, 118, 235, 119, 237, 120, 239, 121, 241, 122, 243, 123, 245, 124, 247, 125, 249, 126, 251, 127, 253, 128, 255, 129, 257, 130, 259, 131, 261, 132, 263, 133, 265, 134, 267, 135, 269, 136, 271, 137, 273, 138, 275, 139, 277, 140, 279, 141, 281, 142, 283, 143, 285, 144, 287, 145, 289, 146, 291, 147, 293, 148, 295, 149, 297, 150, 299, 151, 301, 152, 303, 153, 305, 154, 307, 155, 309, 156, 311, 157, 313, 158, 315, 159, 317, 160, 319, 161, 321, 162, 323, 163, 325, 164, 327, 165, 329, 166, 331, 167, 333, 168, 335, 169, 337, 170, 339, 171, 341, 172, 343, 173, 345, 174, 347, 175, 349, 176, 351, 177, 353, 178, 355, 179, 357, 180, 359, 181, 361, 182, 363, 183, 365, 184, 367, 185, 369, 186, 371, 187, 373, 188, 375, 189, 377, 190, 379, 191, 381, 192, 383, 193, 385, 194, 387, 195, 389, 196, 391, 197, 393, 198, 395, 199, 397, 200, 399, 201, 401, 202, 403, 203, 405, 204, 407, 205, 409, 206, 411, 207, 413, 208, 415, 209, 417, 2, 419, 2, 421, 2, 423, 2, 425, 2, 427, 2, 429, 2, 431, 2, 433, 2, 435, 2, 437, 2, 439, 2, 441, 2, 443, 2, 445, 2, 447, 2, 449, 2, 451, 2, 453, 2, 455, 2, 457, 2, 459, 2, 461, 2, 463, 2, 465, 2, 467, 2, 3, 2, 45, 10, 2, 2, 34, 36, 36, 62, 62, 64, 64, 94, 94, 96, 96, 98, 98, 125, 127, 3, 2, 50, 59, 4, 2, 67, 92, 99, 124, 5, 2, 50, 59, 67, 92, 99, 124, 4, 2, 71, 71, 103, 103, 4, 2, 45, 45, 47, 47, 6, 2, 12, 12, 15, 15, 41, 41, 94, 94, 6, 2, 12, 12, 15, 15, 36, 36, 94, 94, 5, 2, 41, 41, 94, 94, 96, 96, 5, 2, 36, 36, 94, 94, 96, 96, 10, 2, 36, 36, 41, 41, 94, 94, 100, 100, 104, 104, 112, 112, 116, 116, 118, 118, 5, 2, 11, 12, 15, 15, 34, 34, 6, 2, 50, 59, 185, 185, 770, 881, 8257, 8258, 7, 2, 47, 47, 50, 59, 185, 185, 770, 881, 8257, 8258, 4, 2, 48, 48, 60, 60, 5, 2, 50, 59, 67, 72, 99, 104, 9, 2, 35, 35, 37, 49, 61, 61, 63, 63, 65, 66, 97, 97, 128, 128, 4, 2, 12, 12, 15, 15, 4, 2, 67, 67, 99, 99, 4, 2, 68, 68, 100, 100, 4, 2, 69, 69, 101, 101, 4, 2, 70, 70, 102, 102, 4, 2, 72, 72, 104, 104, 4, 2, 73, 73, 105, 105, 4, 2, 74, 74, 106, 106, 4, 2, 75, 75, 107, 107, 4, 2, 76, 76, 108, 108, 4, 2, 77, 77, 109, 109, 4, 2, 78, 78, 110, 110, 4, 2, 79, 79, 111, 111, 4, 2, 80, 80, 112, 112, 4, 2, 81, 81, 113, 113, 4, 2, 82, 82, 114, 114, 4, 2, 83, 83, 115, 115, 4, 2, 84, 84, 116, 116, 4, 2, 85, 85, 117, 117, 4, 2, 86, 86, 118, 118, 4, 2, 87, 87, 119, 119, 4, 2, 88, 88, 120, 120, 4, 2, 89, 89, 121, 121, 4, 2, 90, 90, 122, 122, 4, 2, 91, 91, 123, 123, 4, 2, 92, 92, 124, 124, 3, 16, 2, 67, 2, 92, 2, 99, 2, 124, 2, 194, 2, 216, 2, 218, 2, 248, 2, 250, 2, 769, 2, 882, 2, 895, 2, 897, 2, 8193, 2, 8206, 2, 8207, 2, 8306, 2, 8593, 2, 11266, 2, 12273, 2, 12291, 2, 55297, 2, 63746, 2, 64977, 2, 65010, 2, 65535, 2, 2, 3, 1, 16, 1975, 2, 3, 3, 2, 2, 2, 2, 5, 3, 2, 2, 2, 2, 7, 3, 2, 2, 2, 2, 9, 3, 2, 2, 2, 2, 11, 3, 2, 2, 2, 2, 13, 3, 2, 2, 2, 2, 15, 3, 2, 2, 2, 2, 17, 3, 2, 2, 2, 2, 19, 3, 2, 2, 2, 2, 21, 3, 2, 2, 2, 2, 23, 3, 2, 2, 2, 2, 25, 3, 2, 2, 2, 2, 27, 3, 2, 2, 2, 2, 29, 3, 2, 2, 2, 2, 31, 3, 2, 2, 2, 2, 33, 3, 2, 2, 2, 2, 35, 3, 2, 2, 2, 2, 37, 3, 2, 2, 2, 2, 39, 3, 2, 2, 2, 2, 41, 3, 2, 2, 2, 2, 43, 3, 2, 2, 2, 2, 45, 3, 2, 2, 2, 2, 47, 3, 2, 2, 2, 2, 49, 3, 2, 2, 2, 2, 51, 3, 2, 2, 2, 2, 53, 3, 2, 2, 2, 2, 55, 3, 2, 2, 2, 2, 57, 3, 2, 2, 2, 2, 59, 3, 2, 2, 2, 2, 61, 3, 2, 2, 2, 2, 63, 3, 2, 2, 2, 2, 65, 3, 2, 2, 2, 2, 67, 3, 2, 2, 2, 2, 69, 3, 2, 2, 2, 2, 71, 3, 2, 2, 2, 2, 73, 3, 2, 2, 2, 2, 75, 3, 2, 2, 2, 2, 77, 3, 2, 2, 2, 2, 79, 3, 2, 2, 2, 2, 81, 3, 2, 2, 2, 2, 83, 3, 2, 2, 2, 2, 85, 3, 2, 2, 2, 2, 87, 3, 2, 2, 2, 2, 89, 3, 2, 2, 2, 2, 91, 3, 2, 2, 2, 2, 93, 3, 2, 2, 2, 2, 95, 3, 2, 2, 2, 2, 97, 3, 2, 2, 2, 2, 99, 3, 2, 2, 2, 2, 101, 3, 2, 2, 2, 2, 103, 3, 2, 2, 2, 2, 105, 3, 2, 2, 2, 2, 107, 3, 2, 2, 2, 2, 109, 3, 2, 2, 2, 2, 111, 3, 2, 2, 2, 2, 113, 3, 2, 2, 2, 2, 115, 3, 2, 2, 2, 2, 117, 3, 2, 2, 2, 2, 119, 3, 2, 2, 2, 2, 121, 3, 2, 2, 2, 2, 123, 3, 2, 2, 2, 2, 125, 3, 2, 2, 2, 2, 127, 3, 2, 2, 2, 2, 129, 3, 2, 2, 2, 2, 131, 3, 2, 2, 2, 2, 133, 3, 2, 2, 2, 2, 135, 3, 2, 2, 2, 2, 137, 3, 2, 2, 2, 2, 139, 3, 2, 2, 2, 2, 141, 3, 2, 2, 2, 2, 143, 3, 2, 2, 2, 2, 145, 3, 2, 2, 2, 2, 147, 3, 2, 2, 2, 2, 149, 3, 2, 2, 2, 2, 151, 3, 2, 2, 2, 2, 153, 3, 2, 2, 2, 2, 155, 3, 2, 2, 2, 2, 157, 3, 2, 2, 2, 2, 159, 3, 2, 2, 2, 2, 161, 3, 2, 2, 2, 2, 163, 3, 2, 2, 2, 2, 165, 3, 2, 2, 2, 2, 167, 3, 2, 2, 2, 2, 169, 3, 2, 2, 2, 2, 171, 3, 2, 2, 2, 2, 173, 3, 2, 2, 2, 2, 175, 3, 2, 2, 2, 2, 177, 3, 2, 2, 2, 2, 179, 3, 2, 2, 2, 2, 181, 3, 2, 2, 2, 2, 183, 3, 2, 2, 2, 2, 185, 3, 2, 2, 2, 2, 187, 3, 2, 2, 2, 2, 189, 3, 2, 2, 2, 2, 191, 3, 2, 2, 2, 2, 193, 3, 2, 2, 2, 2, 195, 3, 2, 2, 2, 2, 197, 3, 2, 2, 2, 2, 199, 3, 2, 2, 2, 2, 201, 3, 2, 2, 2, 2, 203, 3, 2, 2, 2, 2, 205, 3, 2, 2, 2, 2, 207, 3, 2, 2, 2, 2, 209, 3, 2, 2, 2, 2, 211, 3, 2, 2, 2, 2, 213, 3, 2, 2, 2, 2, 215, 3, 2, 2, 2, 2, 217, 3, 2, 2, 2, 2, 219, 3, 2, 2, 2, 2, 221, 3, 2, 2, 2, 2, 223, 3, 2, 2, 2, 2, 225, 3, 2, 2, 2, 2, 227, 3, 2, 2, 2, 2, 229, 3, 2, 2, 2, 2, 231, 3, 2, 2, 2, 2, 233, 3, 2, 2, 2, 2, 235, 3, 2, 2, 2, 2, 237, 3, 2, 2, 2, 2, 239, 3, 2, 2, 2, 2, 241, 3, 2, 2, 2, 2, 243, 3, 2, 2, 2, 2, 245, 3, 2, 2, 2, 2, 247, 3, 2, 2, 2, 2, 249, 3, 2, 2, 2, 2, 251, 3, 2, 2, 2, 2, 253, 3, 2, 2, 2, 2, 255, 3, 2, 2, 2, 2, 257, 3, 2, 2, 2, 2, 259, 3, 2, 2, 2, 2, 261, 3, 2, 2, 2, 2, 263, 3, 2, 2, 2, 2, 265, 3, 2, 2, 2, 2, 267, 3, 2, 2, 2, 2, 269, 3, 2, 2, 2, 2, 271, 3, 2, 2, 2, 2, 273, 3, 2, 2, 2, 2, 275, 3, 2, 2, 2, 2, 277, 3, 2, 2, 2, 2, 279, 3, 2, 2, 2, 2, 281, 3, 2, 2, 2, 2, 283, 3, 2, 2, 2, 2, 285, 3, 2, 2, 2, 2, 287, 3, 2, 2, 2, 2, 289, 3, 2, 2, 2, 2, 291, 3, 2, 2, 2, 2, 293, 3, 2, 2, 2, 2, 295, 3, 2, 2, 2, 2, 297, 3, 2, 2, 2, 2, 299, 3, 2, 2, 2, 2, 301, 3, 2, 2, 2, 2, 303, 3, 2, 2, 2, 2, 305, 3, 2, 2, 2, 2, 307, 3, 2, 2, 2, 2, 309, 3, 2, 2, 2, 2, 311, 3, 2, 2, 2, 2, 313, 3, 2, 2, 2, 2, 315, 3, 2, 2, 2, 2, 317, 3, 2, 2, 2, 2, 319, 3, 2, 2, 2, 2, 321, 3, 2, 2, 2, 2, 323, 3, 2, 2, 2, 2, 325, 3, 2, 2, 2, 2, 327, 3, 2, 2, 2, 2, 329, 3, 2, 2, 2, 2, 331, 3, 2, 2, 2, 2, 333, 3, 2, 2, 2, 2, 335, 3, 2, 2, 2, 2, 337, 3, 2, 2, 2, 2, 339, 3, 2, 2, 2, 2, 341, 3, 2, 2, 2, 2, 343, 3, 2, 2, 2, 2, 345, 3, 2, 2, 2, 2, 347, 3, 2, 2, 2, 2, 349, 3, 2, 2, 2, 2, 351, 3, 2, 2, 2, 2, 353, 3, 2, 2, 2, 2, 355, 3, 2, 2, 2, 2, 357, 3, 2, 2, 2, 2, 359, 3, 2, 2, 2, 2, 361, 3, 2, 2, 2, 2, 363, 3, 2, 2, 2, 2, 365, 3, 2, 2, 2, 2, 367, 3, 2, 2, 2, 2, 369, 3, 2, 2, 2, 2, 371, 3, 2, 2, 2, 2, 373, 3, 2, 2, 2, 2, 375, 3, 2, 2, 2, 2, 377, 3, 2, 2, 2, 2, 379, 3, 2, 2, 2, 2, 381, 3, 2, 2, 2, 2, 383, 3, 2, 2, 2, 2, 385, 3, 2, 2, 2, 2, 387, 3, 2, 2, 2, 2, 389, 3, 2, 2, 2, 2, 391, 3, 2, 2, 2, 2, 393, 3, 2, 2, 2, 2, 395, 3, 2, 2, 2, 2, 397, 3, 2, 2, 2, 2, 399, 3, 2, 2, 2, 2, 401, 3, 2, 2, 2, 2, 403, 3, 2, 2, 2, 2, 405, 3, 2, 2, 2, 2, 407, 3, 2, 2, 2, 2, 409, 3, 2, 2, 2, 2, 411, 3, 2, 2, 2, 2, 413, 3, 2, 2, 2, 2, 415, 3, 2, 2, 2, 3, 469, 3, 2, 2, 2, 5, 471, 3, 2, 2, 2, 7, 473, 3, 2, 2, 2, 9, 475, 3, 2, 2, 2, 11, 477, 3, 2, 2, 2, 13, 479, 3, 2, 2, 2, 15, 481, 3, 2, 2, 2, 17, 483, 3, 2, 2, 2, 19, 485, 3, 2, 2, 2, 21, 487, 3, 2, 2, 2, 23, 489, 3, 2, 2, 2, 25, 491, 3, 2, 2, 2, 27, 493, 3, 2, 2, 2, 29, 495, 3, 2, 2, 2, 31, 497, 3, 2, 2, 2, 33, 499, 3, 2, 2, 2, 35, 501, 3, 2, 2, 2, 37, 503, 3, 2, 2, 2, 39, 506, 3, 2, 2, 2, 41, 509, 3, 2, 2, 2, 43, 511, 3, 2, 2, 2, 45, 514, 3, 2, 2, 2, 47, 516, 3, 2, 2, 2, 49, 518, 3, 2, 2, 2, 51, 521, 3, 2, 2, 2, 53, 524, 3, 2, 2, 2, 55, 526, 3, 2, 2, 2, 57, 529, 3, 2, 2, 2, 59, 534, 3, 2, 2, 2, 61, 540, 3, 2, 2, 2, 63, 544, 3, 2, 2, 2, 65, 549, 3, 2, 2, 2, 67, 555, 3, 2, 2, 2, 69, 558, 3, 2, 2, 2, 71, 562, 3, 2, 2, 2, 73, 566, 3, 2, 2, 2, 75, 573, 3, 2, 2, 2, 77, 576, 3, 2, 2, 2, 79, 582, 3, 2, 2, 2, 81, 589, 3, 2, 2, 2, 83, 595, 3, 2, 2, 2, 85, 603, 3, 2, 2, 2, 87, 610, 3, 2, 2, 2, 89, 616, 3, 2, 2, 2, 91, 619, 3, 2, 2, 2, 93, 624, 3, 2, 2, 2, 95, 629, 3, 2, 2, 2, 97, 635, 3, 2, 2, 2, 99, 644, 3, 2, 2, 2, 101, 654, 3, 2, 2, 2, 103, 662, 3, 2, 2, 2, 105, 672, 3, 2, 2, 2, 107, 676, 3, 2, 2, 2, 109, 682, 3, 2, 2, 2, 111, 688, 3, 2, 2, 2, 113, 697, 3, 2, 2, 2, 115, 701, 3, 2, 2, 2, 117, 709, 3, 2, 2, 2, 119, 714, 3, 2, 2, 2, 121, 719, 3, 2, 2, 2, 123, 725, 3, 2, 2, 2, 125, 730, 3, 2, 2, 2, 127, 733, 3, 2, 2, 2, 129, 737, 3, 2, 2, 2, 131, 741, 3, 2, 2, 2, 133, 746, 3, 2, 2, 2, 135, 749, 3, 2, 2, 2, 137, 754, 3, 2, 2, 2, 139, 759, 3, 2, 2, 2, 141, 764, 3, 2, 2, 2, 143, 770, 3, 2, 2, 2, 145, 776, 3, 2, 2, 2, 147, 780, 3, 2, 2, 2, 149, 787, 3, 2, 2, 2, 151, 793, 3, 2, 2, 2, 153, 801, 3, 2, 2, 2, 155, 807, 3, 2, 2, 2, 157, 816, 3, 2, 2, 2, 159, 826, 3, 2, 2, 2, 161, 830, 3, 2, 2, 2, 163, 835, 3, 2, 2, 2, 165, 842, 3, 2, 2, 2, 167, 851, 3, 2, 2, 2, 169, 861, 3, 2, 2, 2, 171, 865, 3, 2, 2, 2, 173, 875, 3, 2, 2, 2, 175, 884, 3, 2, 2, 2, 177, 891, 3, 2, 2, 2, 179, 896, 3, 2, 2, 2, 181, 903, 3, 2, 2, 2, 183, 908, 3, 2, 2, 2, 185, 912, 3, 2, 2, 2, 187, 919, 3, 2, 2, 2, 189, 925, 3, 2, 2, 2, 191, 929, 3, 2, 2, 2, 193, 937, 3, 2, 2, 2, 195, 944, 3, 2, 2, 2, 197, 953, 3, 2, 2, 2, 199, 960, 3, 2, 2, 2, 201, 968, 3, 2, 2, 2, 203, 976, 3, 2, 2, 2, 205, 982, 3, 2, 2, 2, 207, 989, 3, 2, 2, 2, 209, 999, 3, 2, 2, 2, 211, 1003, 3, 2, 2, 2, 213, 1010, 3, 2, 2, 2, 215, 1018, 3, 2, 2, 2, 217, 1024, 3, 2, 2, 2, 219, 1030, 3, 2, 2, 2, 221, 1036, 3, 2, 2, 2, 223, 1044, 3, 2, 2, 2, 225, 1048, 3, 2, 2, 2, 227, 1057, 3, 2, 2, 2, 229, 1064, 3, 2, 2, 2, 231, 1070, 3, 2, 2, 2, 233, 1074, 3, 2, 2, 2, 235, 1082, 3, 2, 2, 2, 237, 1087, 3, 2, 2, 2, 239, 1099, 3, 2, 2, 2, 241, 1105, 3, 2, 2, 2, 243, 1108, 3, 2, 2, 2, 245, 1114, 3, 2, 2, 2, 247, 1119, 3, 2, 2, 2, 249, 1125, 3, 2, 2, 2, 251, 1131, 3, 2, 2, 2, 253, 1140, 3, 2, 2, 2, 255, 1147, 3, 2, 2, 2, 257, 1153, 3, 2, 2, 2, 259, 1162, 3, 2, 2, 2, 261, 1168, 3, 2, 2, 2, 263, 1175, 3, 2, 2, 2, 265, 1191, 3, 2, 2, 2, 267, 1210, 3, 2, 2, 2, 269, 1220, 3, 2, 2, 2, 271, 1233, 3, 2, 2, 2, 273, 1246, 3, 2, 2, 2, 275, 1262, 3, 2, 2, 2, 277, 1276, 3, 2, 2, 2, 279, 1290, 3, 2, 2, 2, 281, 1308, 3, 2, 2, 2, 283, 1312, 3, 2, 2, 2, 285, 1329, 3, 2, 2, 2, 287, 1349, 3, 2, 2, 2, 289, 1358, 3, 2, 2, 2, 291, 1361, 3, 2, 2, 2, 293, 1367, 3, 2, 2, 2, 295, 1375, 3, 2, 2, 2, 297, 1379, 3, 2, 2, 2, 299, 1384, 3, 2, 2, 2, 301, 1392, 3, 2, 2, 2, 303, 1402, 3, 2, 2, 2, 305, 1406, 3, 2, 2, 2, 307, 1419, 3, 2, 2, 2, 309, 1432, 3, 2, 2, 2, 311, 1442, 3, 2, 2, 2, 313, 1446, 3, 2, 2, 2, 315, 1456, 3, 2, 2, 2, 317, 1469, 3, 2, 2, 2, 319, 1487, 3, 2, 2, 2, 321, 1495, 3, 2, 2, 2, 323, 1500, 3, 2, 2, 2, 325, 1509, 3, 2, 2, 2, 327, 1521, 3, 2, 2, 2, 329, 1533, 3, 2, 2, 2, 331, 1546, 3, 2, 2, 2, 333, 1561, 3, 2, 2, 2, 335, 1565, 3, 2, 2, 2, 337, 1570, 3, 2, 2, 2, 339, 1577, 3, 2, 2, 2, 341, 1584, 3, 2, 2, 2, 343, 1591, 3, 2, 2, 2, 345, 1604, 3, 2, 2, 2, 347, 1614, 3, 2, 2, 2, 349, 1618, 3, 2, 2, 2, 351, 1621, 3, 2, 2, 2, 353, 1638, 3, 2, 2, 2, 355, 1641, 3, 2, 2, 2, 357, 1644, 3, 2, 2, 2, 359, 1662, 3, 2, 2, 2, 361, 1669, 3, 2, 2, 2, 363, 1704, 3, 2, 2, 2, 365, 1706, 3, 2, 2, 2, 367, 1709, 3, 2, 2, 2, 369, 1712, 3, 2, 2, 2, 371, 1715, 3, 2, 2, 2, 373, 1718, 3, 2, 2, 2, 375, 1721, 3, 2, 2, 2, 377, 1724, 3, 2, 2, 2, 379, 1733, 3, 2, 2, 2, 381, 1743, 3, 2, 2, 2, 383, 1753, 3, 2, 2, 2, 385, 1775, 3, 2, 2, 2, 387, 1797, 3, 2, 2, 2, 389, 1800, 3, 2, 2, 2, 391, 1809, 3, 2, 2, 2, 393, 1813, 3, 2, 2, 2, 395, 1823, 3, 2, 2, 2, 397, 1827, 3, 2, 2, 2, 399, 1831, 3, 2, 2, 2, 401, 1842, 3, 2, 2, 2, 403, 1844, 3, 2, 2, 2, 405, 1858, 3, 2, 2, 2, 407, 1877, 3, 2, 2, 2, 409, 1879, 3, 2, 2, 2, 411, 1884, 3, 2, 2, 2, 413, 1886, 3, 2, 2, 2, 415, 1889, 3, 2, 2, 2, 417, 1898, 3, 2, 2, 2, 419, 1900, 3, 2, 2, 2, 421, 1902, 3, 2, 2, 2, 423, 1904, 3, 2, 2, 2, 425, 1906, 3, 2, 2, 2, 427, 1908, 3, 2, 2, 2, 429, 1910, 3, 2, 2, 2, 431, 1912, 3, 2, 2, 2, 433, 1914, 3, 2, 2, 2, 435, 1916, 3, 2, 2, 2, 437, 1918, 3, 2, 2, 2, 439, 1920, 3, 2, 2, 2, 441, 1922, 3, 2, 2, 2, 443, 1924, 3, 2, 2, 2, 445, 1926, 3, 2, 2, 2, 447, 1928, 3, 2, 2, 2, 449, 1930, 3, 2, 2, 2, 451, 1932, 3, 2, 2, 2, 453, 1934, 3, 2, 2, 2, 455, 1936, 3, 2, 2, 2, 457, 1938, 3, 2, 2, 2, 459, 1940, 3, 2, 2, 2, 461, 1942, 3, 2, 2, 2, 463, 1944, 3, 2, 2, 2, 465, 1946, 3, 2, 2, 2, 467, 1948, 3, 2, 2, 2, 469, 470, 7, 44, 2, 2, 470, 4, 3, 2, 2, 2, 471, 472, 7, 42, 2, 2, 472, 6, 3, 2, 2, 2, 473, 474, 7, 43, 2, 2, 474, 8, 3, 2, 2, 2, 475, 476, 7, 125, 2, 2, 476, 10, 3, 2, 2, 2, 477, 478, 7, 127, 2, 2, 478, 12, 3, 2, 2, 2, 479, 480, 7, 61, 2, 2, 480, 14, 3, 2, 2, 2, 481, 482, 7, 48, 2, 2, 482, 16, 3, 2, 2, 2, 483, 484, 7, 46, 2, 2, 484, 18, 3, 2, 2, 2, 485, 486, 7, 99, 2, 2, 486, 20, 3, 2, 2, 2, 487, 488, 7, 126, 2, 2, 488, 22, 3, 2, 2, 2, 489, 490, 7, 49, 2, 2, 490, 24, 3, 2, 2, 2, 491, 492, 7, 96, 2, 2, 492, 26, 3, 2, 2, 2, 493, 494, 7, 65, 2, 2, 494, 28, 3, 2, 2, 2, 495, 496, 7, 45, 2, 2, 496, 30, 3, 2, 2, 2, 497, 498, 7, 35, 2, 2, 498, 32, 3, 2, 2, 2, 499, 500, 7, 93, 2, 2, 500, 34, 3, 2, 2, 2, 501, 502, 7, 95, 2, 2, 502, 36, 3, 2, 2, 2, 503, 504, 7, 126, 2, 2, 504, 505, 7, 126, 2, 2, 505, 38, 3, 2, 2, 2, 506, 507, 7, 40, 2, 2, 507, 508, 7, 40, 2, 2, 508, 40, 3, 2, 2, 2, 509, 510, 7, 63, 2, 2, 510, 42, 3, 2, 2, 2, 511, 512, 7, 35, 2, 2, 512, 513, 7, 63, 2, 2, 513, 44, 3, 2, 2, 2, 514, 515, 7, 62, 2, 2, 515, 46, 3, 2, 2, 2, 516, 517, 7, 64, 2, 2, 517, 48, 3, 2, 2, 2, 518, 519, 7, 62, 2, 2, 519, 520, 7, 63, 2, 2, 520, 50, 3, 2, 2, 2, 521, 522, 7, 64, 2, 2, 522, 523, 7, 63, 2, 2, 523, 52, 3, 2, 2, 2, 524, 525, 7, 47, 2, 2, 525, 54, 3, 2, 2, 2, 526, 527, 7, 96, 2, 2, 527, 528, 7, 96, 2, 2, 528, 56, 3, 2, 2, 2, 529, 530, 7, 118, 2, 2, 530, 531, 7, 116, 2, 2, 531, 532, 7, 119, 2, 2, 532, 533, 7, 103, 2, 2, 533, 58, 3, 2, 2, 2, 534, 535, 7, 104, 2, 2, 535, 536, 7, 99, 2, 2, 536, 537, 7, 110, 2, 2, 537, 538, 7, 117, 2, 2, 538, 539, 7, 103, 2, 2, 539, 60, 3, 2, 2, 2, 540, 541, 5, 443, 222, 2, 541, 542, 5, 445, 223, 2, 542, 543, 5, 461, 231, 2, 543, 62, 3, 2, 2, 2, 544, 545, 5, 465, 233, 2, 545, 546, 5, 425, 213, 2, 546, 547, 5, 417, 209, 2, 547, 548, 5, 451, 226, 2, 548, 64, 3, 2, 2, 2, 549, 550, 5, 457, 229, 2, 550, 551, 5, 443, 222, 2, 551, 552, 5, 433, 217, 2, 552, 553, 5, 445, 223, 2, 553, 554, 5, 443, 222, 2, 554, 66, 3, 2, 2, 2, 555, 556, 5, 433, 217, 2, 556, 557, 5, 427, 214, 2, 557, 68, 3, 2, 2, 2, 558, 559, 5, 417, 209, 2, 559, 560, 5, 453, 227, 2, 560, 561, 5, 437, 219, 2, 561, 70, 3, 2, 2, 2, 562, 563, 5, 417, 209, 2, 563, 564, 5, 453, 227, 2, 564, 565, 5, 421, 211, 2, 565, 72, 3, 2, 2, 2, 566, 567, 5, 421, 211, 2, 567, 568, 5, 445, 223, 2, 568, 569, 5, 443, 222, 2, 569, 570, 5, 421, 211, 2, 570, 571, 5, 417, 209, 2, 571, 572, 5, 455, 228, 2, 572, 74, 3, 2, 2, 2, 573, 574, 5, 433, 217, 2, 574, 575, 5, 443, 222, 2, 575, 76, 3, 2, 2, 2, 576, 577, 5, 457, 229, 2, 577, 578, 5, 443, 222, 2, 578, 579, 5, 423, 212, 2, 579, 580, 5, 425, 213, 2, 580, 581, 5, 427, 214, 2, 581, 78, 3, 2, 2, 2, 582, 583, 5, 433, 217, 2, 583, 584, 5, 443, 222, 2, 584, 585, 5, 453, 227, 2, 585, 586, 5, 425, 213, 2, 586, 587, 5, 451, 226, 2, 587, 588, 5, 455, 228, 2, 588, 80, 3, 2, 2, 2, 589, 590, 5, 441, 221, 2, 590, 591, 5, 445, 223, 2, 591, 592, 5, 443, 222, 2, 592, 593, 5, 455, 228, 2, 593, 594, 5, 431, 216, 2, 594, 82, 3, 2, 2, 2, 595, 596, 5, 423, 212, 2, 596, 597, 5, 425, 213, 2, 597, 598, 5, 427, 214, 2, 598, 599, 5, 417, 209, 2, 599, 600, 5, 457, 229, 2, 600, 601, 5, 439, 220, 2, 601, 602, 5, 455, 228, 2, 602, 84, 3, 2, 2, 2, 603, 604, 5, 453, 227, 2, 604, 605, 5, 425, 213, 2, 605, 606, 5, 439, 220, 2, 606, 607, 5, 425, 213, 2, 607, 608, 5, 421, 211, 2, 608, 609, 5, 455, 228, 2, 609, 86, 3, 2, 2, 2, 610, 611, 5, 427, 214, 2, 611, 612, 5, 439, 220, 2, 612, 613, 5, 445, 223, 2, 613, 614, 5, 445, 223, 2, 614, 615, 5, 451, 226, 2, 615, 88, 3, 2, 2, 2, 616, 617, 5, 455, 228, 2, 617, 618, 5, 467, 234, 2, 618, 90, 3, 2, 2, 2, 619, 620, 5, 421, 211, 2, 620, 621, 5, 445, 223, 2, 621, 622, 5, 447, 224, 2, 622, 623, 5, 465, 233, 2, 623, 92, 3, 2, 2, 2, 624, 625, 5, 421, 211, 2, 625, 626, 5, 425, 213, 2, 626, 627, 5, 433, 217, 2, 627, 628, 5, 439, 220, 2, 628, 94, 3, 2, 2, 2, 629, 630, 5, 431, 216, 2, 630, 631, 5, 445, 223, 2, 631, 632, 5, 457, 229, 2, 632, 633, 5, 451, 226, 2, 633, 634, 5, 453, 227, 2, 634, 96, 3, 2, 2, 2, 635, 636, 5, 423, 212, 2, 636, 637, 5, 417, 209, 2, 637, 638, 5, 455, 228, 2, 638, 639, 5, 417, 209, 2, 639, 640, 5, 455, 228, 2, 640, 641, 5, 465, 233, 2, 641, 642, 5, 447, 224, 2, 642, 643, 5, 425, 213, 2, 643, 98, 3, 2, 2, 2, 644, 645, 5, 433, 217, 2, 645, 646, 5, 453, 227, 2, 646, 647, 5, 443, 222, 2, 647, 648, 5, 457, 229, 2, 648, 649, 5, 441, 221, 2, 649, 650, 5, 425, 213, 2, 650, 651, 5, 451, 226, 2, 651, 652, 5, 433, 217, 2, 652, 653, 5, 421, 211, 2, 653, 100, 3, 2, 2, 2, 654, 655, 5, 453, 227, 2, 655, 656, 5, 455, 228, 2, 656, 657, 5, 451, 226, 2, 657, 658, 5, 457, 229, 2, 658, 659, 5, 457, 229, 2, 659, 660, 5, 433, 217, 2, 660, 661, 5, 423, 212, 2, 661, 102, 3, 2, 2, 2, 662, 663, 5, 421, 211, 2, 663, 664, 5, 445, 223, 2, 664, 665, 5, 443, 222, 2, 665, 666, 5, 453, 227, 2, 666, 667, 5, 455, 228, 2, 667, 668, 5, 451, 226, 2, 668, 669, 5, 457, 229, 2, 669, 670, 5, 421, 211, 2, 670, 671, 5, 455, 228, 2, 671, 104, 3, 2, 2, 2, 672, 673, 5, 417, 209, 2, 673, 674, 5, 423, 212, 2, 674, 675, 5, 423, 212, 2, 675, 106, 3, 2, 2, 2, 676, 677, 5, 419, 210, 2, 677, 678, 5, 445, 223, 2, 678, 679, 5, 457, 229, 2, 679, 680, 5, 443, 222, 2, 680, 681, 5, 423, 212, 2, 681, 108, 3, 2, 2, 2, 682, 683, 5, 443, 222, 2, 683, 684, 5, 417, 209, 2, 684, 685, 5, 441, 221, 2, 685, 686, 5, 425, 213, 2, 686, 687, 5, 423, 212, 2, 687, 110, 3, 2, 2, 2, 688, 689, 5, 455, 228, 2, 689, 690, 5, 433, 217, 2, 690, 691, 5, 441, 221, 2, 691, 692, 5, 425, 213, 2, 692, 693, 5, 467, 234, 2, 693, 694, 5, 445, 223, 2, 694, 695, 5, 443, 222, 2, 695, 696, 5, 425, 213, 2, 696, 112, 3, 2, 2, 2, 697, 698, 5, 441, 221, 2, 698, 699, 5, 433, 217, 2, 699, 700, 5, 443, 222, 2, 700, 114, 3, 2, 2, 2, 701, 702, 5, 433, 217, 2, 702, 703, 5, 453, 227, 2, 703, 704, 5, 419, 210, 2, 704, 705, 5, 439, 220, 2, 705, 706, 5, 417, 209, 2, 706, 707, 5, 443, 222, 2, 707, 708, 5, 437, 219, 2, 708, 116, 3, 2, 2, 2, 709, 710, 5, 457, 229, 2, 710, 711, 5, 457, 229, 2, 711, 712, 5, 433, 217, 2, 712, 713, 5, 423, 212, 2, 713, 118, 3, 2, 2, 2, 714, 715, 5, 419, 210, 2, 715, 716, 5, 433, 217, 2, 716, 717, 5, 443, 222, 2, 717, 718, 5, 423, 212, 2, 718, 120, 3, 2, 2, 2, 719, 720, 5, 421, 211, 2, 720, 721, 5, 439, 220, 2, 721, 722, 5, 425, 213, 2, 722, 723, 5, 417, 209, 2, 723, 724, 5, 451, 226, 2, 724, 122, 3, 2, 2, 2, 725, 726, 5, 433, 217, 2, 726, 727, 5, 443, 222, 2, 727, 728, 5, 455, 228, 2, 728, 729, 5, 445, 223, 2, 729, 124, 3, 2, 2, 2, 730, 731, 5, 417, 209, 2, 731, 732, 5, 453, 227, 2, 732, 126, 3, 2, 2, 2, 733, 734, 5, 417, 209, 2, 734, 735, 5, 439, 220, 2, 735, 736, 5, 439, 220, 2, 736, 128, 3, 2, 2, 2, 737, 738, 5, 433, 217, 2, 738, 739, 5, 451, 226, 2, 739, 740, 5, 433, 217, 2, 740, 130, 3, 2, 2, 2, 741, 742, 5, 419, 210, 2, 742, 743, 5, 417, 209, 2, 743, 744, 5, 453, 227, 2, 744, 745, 5, 425, 213, 2, 745, 132, 3, 2, 2, 2, 746, 747, 5, 419, 210, 2, 747, 748, 5, 465, 233, 2, 748, 134, 3, 2, 2, 2, 749, 750, 5, 423, 212, 2, 750, 751, 5, 451, 226, 2, 751, 752, 5, 445, 223, 2, 752, 753, 5, 447, 224, 2, 753, 136, 3, 2, 2, 2, 754, 755, 5, 439, 220, 2, 755, 756, 5, 445, 223, 2, 756, 757, 5, 417, 209, 2, 757, 758, 5, 423, 212, 2, 758, 138, 3, 2, 2, 2, 759, 760, 5, 461, 231, 2, 760, 761, 5, 433, 217, 2, 761, 762, 5, 455, 228, 2, 762, 763, 5, 431, 216, 2, 763, 140, 3, 2, 2, 2, 764, 765, 5, 419, 210, 2, 765, 766, 5, 443, 222, 2, 766, 767, 5, 445, 223, 2, 767, 768, 5, 423, 212, 2, 768, 769, 5, 425, 213, 2, 769, 142, 3, 2, 2, 2, 770, 771, 5, 461, 231, 2, 771, 772, 5, 431, 216, 2, 772, 773, 5, 425, 213, 2, 773, 774, 5, 451, 226, 2, 774, 775, 5, 425, 213, 2, 775, 144, 3, 2, 2, 2, 776, 777, 5, 417, 209, 2, 777, 778, 5, 459, 230, 2, 778, 779, 5, 429, 215, 2, 779, 146, 3, 2, 2, 2, 780, 781, 5, 453, 227, 2, 781, 782, 5, 417, 209, 2, 782, 783, 5, 441, 221, 2, 783, 784, 5, 447, 224, 2, 784, 785, 5, 439, 220, 2, 785, 786, 5, 425, 213, 2, 786, 148, 3, 2, 2, 2, 787, 788, 5, 457, 229, 2, 788, 789, 5, 421, 211, 2, 789, 790, 5, 417, 209, 2, 790, 791, 5, 453, 227, 2, 791, 792, 5, 425, 213, 2, 792, 150, 3, 2, 2, 2, 793, 794, 5, 453, 227, 2, 794, 795, 5, 425, 213, 2, 795, 796, 5, 451, 226, 2, 796, 797, 5, 459, 230, 2, 797, 798, 5, 433, 217, 2, 798, 799, 5, 421, 211, 2, 799, 800, 5, 425, 213, 2, 800, 152, 3, 2, 2, 2, 801, 802, 5, 441, 221, 2, 802, 803, 5, 433, 217, 2, 803, 804, 5, 443, 222, 2, 804, 805, 5, 457, 229, 2, 805, 806, 5, 453, 227, 2, 806, 154, 3, 2, 2, 2, 807, 808, 5, 453, 227, 2, 808, 809, 5, 417, 209, 2, 809, 810, 5, 441, 221, 2, 810, 811, 5, 425, 213, 2, 811, 812, 5, 455, 228, 2, 812, 813, 5, 425, 213, 2, 813, 814, 5, 451, 226, 2, 814, 815, 5, 441, 221, 2, 815, 156, 3, 2, 2, 2, 816, 817, 5, 453, 227, 2, 817, 818, 5, 455, 228, 2, 818, 819, 5, 451, 226, 2, 819, 820, 5, 453, 227, 2, 820, 821, 5, 455, 228, 2, 821, 822, 5, 417, 209, 2, 822, 823, 5, 451, 226, 2, 823, 824, 5, 455, 228, 2, 824, 825, 5, 453, 227, 2, 825, 158, 3, 2, 2, 2, 826, 827, 5, 453, 227, 2, 827, 828, 5, 455, 228, 2, 828, 829, 5, 451, 226, 2, 829, 160, 3, 2, 2, 2, 830, 831, 5, 441, 221, 2, 831, 832, 5, 445, 223, 2, 832, 833, 5, 459, 230, 2, 833, 834, 5, 425, 213, 2, 834, 162, 3, 2, 2, 2, 835, 836, 5, 431, 216, 2, 836, 837, 5, 417, 209, 2, 837, 838, 5, 459, 230, 2, 838, 839, 5, 433, 217, 2, 839, 840, 5, 443, 222, 2, 840, 841, 5, 429, 215, 2, 841, 164, 3, 2, 2, 2, 842, 843, 5, 421, 211, 2, 843, 844, 5, 445, 223, 2, 844, 845, 5, 417, 209, 2, 845, 846, 5, 439, 220, 2, 846, 847, 5, 425, 213, 2, 847, 848, 5, 453, 227, 2, 848, 849, 5, 421, 211, 2, 849, 850, 5, 425, 213, 2, 850, 166, 3, 2, 2, 2, 851, 852, 5, 453, 227, 2, 852, 853, 5, 455, 228, 2, 853, 854, 5, 451, 226, 2, 854, 855, 5, 419, 210, 2, 855, 856, 5, 425, 213, 2, 856, 857, 5, 427, 214, 2, 857, 858, 5, 445, 223, 2, 858, 859, 5, 451, 226, 2, 859, 860, 5, 425, 213, 2, 860, 168, 3, 2, 2, 2, 861, 862, 5, 417, 209, 2, 862, 863, 5, 419, 210, 2, 863, 864, 5, 453, 227, 2, 864, 170, 3, 2, 2, 2, 865, 866, 5, 433, 217, 2, 866, 867, 5, 453, 227, 2, 867, 868, 5, 439, 220, 2, 868, 869, 5, 433, 217, 2, 869, 870, 5, 455, 228, 2, 870, 871, 5, 425, 213, 2, 871, 872, 5, 451, 226, 2, 872, 873, 5, 417, 209, 2, 873, 874, 5, 439, 220, 2, 874, 172, 3, 2, 2, 2, 875, 876, 5, 453, 227, 2, 876, 877, 5, 455, 228, 2, 877, 878, 5, 451, 226, 2, 878, 879, 5, 417, 209, 2, 879, 880, 5, 427, 214, 2, 880, 881, 5, 455, 228, 2, 881, 882, 5, 425, 213, 2, 882, 883, 5, 451, 226, 2, 883, 174, 3, 2, 2, 2, 884, 885, 5, 453, 227, 2, 885, 886, 5, 455, 228, 2, 886, 887, 5, 451, 226, 2, 887, 888, 5, 439, 220, 2, 888, 889, 5, 425, 213, 2, 889, 890, 5, 443, 222, 2, 890, 176, 3, 2, 2, 2, 891, 892, 5, 439, 220, 2, 892, 893, 5, 417, 209, 2, 893, 894, 5, 443, 222, 2, 894, 895, 5, 429, 215, 2, 895, 178, 3, 2, 2, 2, 896, 897, 5, 421, 211, 2, 897, 898, 5, 451, 226, 2, 898, 899, 5, 425, 213, 2, 899, 900, 5, 417, 209, 2, 900, 901, 5, 455, 228, 2, 901, 902, 5, 425, 213, 2, 902, 180, 3, 2, 2, 2, 903, 904, 5, 423, 212, 2, 904, 905, 5, 425, 213, 2, 905, 906, 5, 453, 227, 2, 906, 907, 5, 421, 211, 2, 907, 182, 3, 2, 2, 2, 908, 909, 5, 441, 221, 2, 909, 910, 5, 417, 209, 2, 910, 911, 5, 463, 232, 2, 911, 184, 3, 2, 2, 2, 912, 913, 5, 427, 214, 2, 913, 914, 5, 433, 217, 2, 914, 915, 5, 439, 220, 2, 915, 916, 5, 455, 228, 2, 916, 917, 5, 425, 213, 2, 917, 918, 5, 451, 226, 2, 918, 186, 3, 2, 2, 2, 919, 920, 5, 457, 229, 2, 920, 921, 5, 453, 227, 2, 921, 922, 5, 433, 217, 2, 922, 923, 5, 443, 222, 2, 923, 924, 5, 429, 215, 2, 924, 188, 3, 2, 2, 2, 925, 926, 5, 443, 222, 2, 926, 927, 5, 445, 223, 2, 927, 928, 5, 455, 228, 2, 928, 190, 3, 2, 2, 2, 929, 930, 5, 453, 227, 2, 930, 931, 5, 455, 228, 2, 931, 932, 5, 451, 226, 2, 932, 933, 5, 425, 213, 2, 933, 934, 5, 443, 222, 2, 934, 935, 5, 423, 212, 2, 935, 936, 5, 453, 227, 2, 936, 192, 3, 2, 2, 2, 937, 938, 5, 445, 223, 2, 938, 939, 5, 427, 214, 2, 939, 940, 5, 427, 214, 2, 940, 941, 5, 453, 227, 2, 941, 942, 5, 425, 213, 2, 942, 943, 5, 455, 228, 2, 943, 194, 3, 2, 2, 2, 944, 945, 5, 421, 211, 2, 945, 946, 5, 445, 223, 2, 946, 947, 5, 443, 222, 2, 947, 948, 5, 455, 228, 2, 948, 949, 5, 417, 209, 2, 949, 950, 5, 433, 217, 2, 950, 951, 5, 443, 222, 2, 951, 952, 5, 453, 227, 2, 952, 196, 3, 2, 2, 2, 953, 954, 5, 447, 224, 2, 954, 955, 5, 451, 226, 2, 955, 956, 5, 425, 213, 2, 956, 957, 5, 427, 214, 2, 957, 958, 5, 433, 217, 2, 958, 959, 5, 463, 232, 2, 959, 198, 3, 2, 2, 2, 960, 961, 5, 441, 221, 2, 961, 962, 5, 433, 217, 2, 962, 963, 5, 443, 222, 2, 963, 964, 5, 457, 229, 2, 964, 965, 5, 455, 228, 2, 965, 966, 5, 425, 213, 2, 966, 967, 5, 453, 227, 2, 967, 200, 3, 2, 2, 2, 968, 969, 5, 451, 226, 2, 969, 970, 5, 425, 213, 2, 970, 971, 5, 447, 224, 2, 971, 972, 5, 439, 220, 2, 972, 973, 5, 417, 209, 2, 973, 974, 5, 421, 211, 2, 974, 975, 5, 425, 213, 2, 975, 202, 3, 2, 2, 2, 976, 977, 5, 451, 226, 2, 977, 978, 5, 425, 213, 2, 978, 979, 5, 429, 215, 2, 979, 980, 5, 425, 213, 2, 980, 981, 5, 463, 232, 2, 981, 204, 3, 2, 2, 2, 982, 983, 5, 423, 212, 2, 983, 984, 5, 425, 213, 2, 984, 985, 5, 439, 220, 2, 985, 986, 5, 425, 213, 2, 986, 987, 5, 455, 228, 2, 987, 988, 5, 425, 213, 2, 988, 206, 3, 2, 2, 2, 989, 990, 5, 453, 227, 2, 990, 991, 5, 425, 213, 2, 991, 992, 5, 447, 224, 2, 992, 993, 5, 417, 209, 2, 993, 994, 5, 451, 226, 2, 994, 995, 5, 417, 209, 2, 995, 996, 5, 455, 228, 2, 996, 997, 5, 445, 223, 2, 997, 998, 5, 451, 226, 2, 998, 208, 3, 2, 2, 2, 999, 1000, 5, 423, 212, 2, 1000, 1001, 5, 417, 209, 2, 1001, 1002, 5, 465, 233, 2, 1002, 210, 3, 2, 2, 2, 1003, 1004, 5, 453, 227, 2, 1004, 1005, 5, 433, 217, 2, 1005, 1006, 5, 439, 220, 2, 1006, 1007, 5, 425, 213, 2, 1007, 1008, 5, 443, 222, 2, 1008, 1009, 5, 455, 228, 2, 1009, 212, 3, 2, 2, 2, 1010, 1011, 5, 453, 227, 2, 1011, 1012, 5, 455, 228, 2, 1012, 1013, 5, 451, 226, 2, 1013, 1014, 5, 439, 220, 2, 1014, 1015, 5, 417, 209, 2, 1015, 1016, 5, 443, 222, 2, 1016, 1017, 5, 429, 215, 2, 1017, 214, 3, 2, 2, 2, 1018, 1019, 5, 445, 223, 2, 1019, 1020, 5, 451, 226, 2, 1020, 1021, 5, 423, 212, 2, 1021, 1022, 5, 425, 213, 2, 1022, 1023, 5, 451, 226, 2, 1023, 216, 3, 2, 2, 2, 1024, 1025, 5, 451, 226, 2, 1025, 1026, 5, 445, 223, 2, 1026, 1027, 5, 457, 229, 2, 1027, 1028, 5, 443, 222, 2, 1028, 1029, 5, 423, 212, 2, 1029, 218, 3, 2, 2, 2, 1030, 1031, 5, 429, 215, 2, 1031, 1032, 5, 451, 226, 2, 1032, 1033, 5, 417, 209, 2, 1033, 1034, 5, 447, 224, 2, 1034, 1035, 5, 431, 216, 2, 1035, 220, 3, 2, 2, 2, 1036, 1037, 5, 453, 227, 2, 1037, 1038, 5, 425, 213, 2, 1038, 1039, 5, 421, 211, 2, 1039, 1040, 5, 445, 223, 2, 1040, 1041, 5, 443, 222, 2, 1041, 1042, 5, 423, 212, 2, 1042, 1043, 5, 453, 227, 2, 1043, 222, 3, 2, 2, 2, 1044, 1045, 5, 457, 229, 2, 1045, 1046, 5, 451, 226, 2, 1046, 1047, 5, 433, 217, 2, 1047, 224, 3, 2, 2, 2, 1048, 1049, 5, 423, 212, 2, 1049, 1050, 5, 433, 217, 2, 1050, 1051, 5, 453, 227, 2, 1051, 1052, 5, 455, 228, 2, 1052, 1053, 5, 433, 217, 2, 1053, 1054, 5, 443, 222, 2, 1054, 1055, 5, 421, 211, 2, 1055, 1056, 5, 455, 228, 2, 1056, 226, 3, 2, 2, 2, 1057, 1058, 5, 425, 213, 2, 1058, 1059, 5, 463, 232, 2, 1059, 1060, 5, 433, 217, 2, 1060, 1061, 5, 453, 227, 2, 1061, 1062, 5, 455, 228, 2, 1062, 1063, 5, 453, 227, 2, 1063, 228, 3, 2, 2, 2, 1064, 1065, 5, 429, 215, 2, 1065, 1066, 5, 451, 226, 2, 1066, 1067, 5, 445, 223, 2, 1067, 1068, 5, 457, 229, 2, 1068, 1069, 5, 447, 224, 2, 1069, 230, 3, 2, 2, 2, 1070, 1071, 5, 453, 227, 2, 1071, 1072, 5, 457, 229, 2, 1072, 1073, 5, 441, 221, 2, 1073, 232, 3, 2, 2, 2, 1074, 1075, 5, 451, 226, 2, 1075, 1076, 5, 425, 213, 2, 1076, 1077, 5, 423, 212, 2, 1077, 1078, 5, 457, 229, 2, 1078, 1079, 5, 421, 211, 2, 1079, 1080, 5, 425, 213, 2, 1080, 1081, 5, 423, 212, 2, 1081, 234, 3, 2, 2, 2, 1082, 1083, 5, 427, 214, 2, 1083, 1084, 5, 451, 226, 2, 1084, 1085, 5, 445, 223, 2, 1085, 1086, 5, 441, 221, 2, 1086, 236, 3, 2, 2, 2, 1087, 1088, 5, 439, 220, 2, 1088, 1089, 5, 417, 209, 2, 1089, 1090, 5, 443, 222, 2, 1090, 1091, 5, 429, 215, 2, 1091, 1092, 5, 441, 221, 2, 1092, 1093, 5, 417, 209, 2, 1093, 1094, 5, 455, 228, 2, 1094, 1095, 5, 421, 211, 2, 1095, 1096, 5, 431, 216, 2, 1096, 1097, 5, 425, 213, 2, 1097, 1098, 5, 453, 227, 2, 1098, 238, 3, 2, 2, 2, 1099, 1100, 5, 433, 217, 2, 1100, 1101, 5, 453, 227, 2, 1101, 1102, 5, 457, 229, 2, 1102, 1103, 5, 451, 226, 2, 1103, 1104, 5, 433, 217, 2, 1104, 240, 3, 2, 2, 2, 1105, 1106, 5, 455, 228, 2, 1106, 1107, 5, 445, 223, 2, 1107, 242, 3, 2, 2, 2, 1108, 1109, 5, 433, 217, 2, 1109, 1110, 5, 453, 227, 2, 1110, 1111, 5, 433, 217, 2, 1111, 1112, 5, 451, 226, 2, 1112, 1113, 5, 433, 217, 2, 1113, 244, 3, 2, 2, 2, 1114, 1115, 5, 451, 226, 2, 1115, 1116, 5, 417, 209, 2, 1116, 1117, 5, 443, 222, 2, 1117, 1118, 5, 423, 212, 2, 1118, 246, 3, 2, 2, 2, 1119, 1120, 5, 453, 227, 2, 1120, 1121, 5, 455, 228, 2, 1121, 1122, 5, 451, 226, 2, 1122, 1123, 5, 423, 212, 2, 1123, 1124, 5, 455, 228, 2, 1124, 248, 3, 2, 2, 2, 1125, 1126, 5, 421, 211, 2, 1126, 1127, 5, 445, 223, 2, 1127, 1128, 5, 457, 229, 2, 1128, 1129, 5, 443, 222, 2, 1129, 1130, 5, 455, 228, 2, 1130, 250, 3, 2, 2, 2, 1131, 1132, 5, 423, 212, 2, 1132, 1133, 5, 425, 213, 2, 1133, 1134, 5, 453, 227, 2, 1134, 1135, 5, 421, 211, 2, 1135, 1136, 5, 451, 226, 2, 1136, 1137, 5, 433, 217, 2, 1137, 1138, 5, 419, 210, 2, 1138, 1139, 5, 425, 213, 2, 1139, 252, 3, 2, 2, 2, 1140, 1141, 5, 459, 230, 2, 1141, 1142, 5, 417, 209, 2, 1142, 1143, 5, 439, 220, 2, 1143, 1144, 5, 457, 229, 2, 1144, 1145, 5, 425, 213, 2, 1145, 1146, 5, 453, 227, 2, 1146, 254, 3, 2, 2, 2, 1147, 1148, 5, 439, 220, 2, 1148, 1149, 5, 421, 211, 2, 1149, 1150, 5, 417, 209, 2, 1150, 1151, 5, 453, 227, 2, 1151, 1152, 5, 425, 213, 2, 1152, 256, 3, 2, 2, 2, 1153, 1154, 5, 445, 223, 2, 1154, 1155, 5, 447, 224, 2, 1155, 1156, 5, 455, 228, 2, 1156, 1157, 5, 433, 217, 2, 1157, 1158, 5, 445, 223, 2, 1158, 1159, 5, 443, 222, 2, 1159, 1160, 5, 417, 209, 2, 1160, 1161, 5, 439, 220, 2, 1161, 258, 3, 2, 2, 2, 1162, 1163, 5, 439, 220, 2, 1163, 1164, 5, 433, 217, 2, 1164, 1165, 5, 441, 221, 2, 1165, 1166, 5, 433, 217, 2, 1166, 1167, 5, 455, 228, 2, 1167, 260, 3, 2, 2, 2, 1168, 1169, 5, 453, 227, 2, 1169, 1170, 5, 457, 229, 2, 1170, 1171, 5, 419, 210, 2, 1171, 1172, 5, 453, 227, 2, 1172, 1173, 5, 455, 228, 2, 1173, 1174, 5, 451, 226, 2, 1174, 262, 3, 2, 2, 2, 1175, 1176, 5, 453, 227, 2, 1176, 1177, 5, 433, 217, 2, 1177, 1178, 5, 441, 221, 2, 1178, 1179, 5, 447, 224, 2, 1179, 1180, 5, 439, 220, 2, 1180, 1181, 5, 425, 213, 2, 1181, 1182, 5, 421, 211, 2, 1182, 1183, 5, 465, 233, 2, 1183, 1184, 5, 421, 211, 2, 1184, 1185, 5, 439, 220, 2, 1185, 1186, 5, 425, 213, 2, 1186, 1187, 5, 447, 224, 2, 1187, 1188, 5, 417, 209, 2, 1188, 1189, 5, 455, 228, 2, 1189, 1190, 5, 431, 216, 2, 1190, 264, 3, 2, 2, 2, 1191, 1192, 5, 453, 227, 2, 1192, 1193, 5, 433, 217, 2, 1193, 1194, 5, 441, 221, 2, 1194, 1195, 5, 447, 224, 2, 1195, 1196, 5, 439, 220, 2, 1196, 1197, 5, 425, 213, 2, 1197, 1198, 5, 421, 211, 2, 1198, 1199, 5, 465, 233, 2, 1199, 1200, 5, 421, 211, 2, 1200, 1201, 5, 439, 220, 2, 1201, 1202, 5, 425, 213, 2, 1202, 1203, 5, 419, 210, 2, 1203, 1204, 5, 445, 223, 2, 1204, 1205, 5, 445, 223, 2, 1205, 1206, 5, 439, 220, 2, 1206, 1207, 5, 425, 213, 2, 1207, 1208, 5, 417, 209, 2, 1208, 1209, 5, 443, 222, 2, 1209, 266, 3, 2, 2, 2, 1210, 1211, 5, 421, 211, 2, 1211, 1212, 5, 465, 233, 2, 1212, 1213, 5, 421, 211, 2, 1213, 1214, 5, 439, 220, 2, 1214, 1215, 5, 425, 213, 2, 1215, 1216, 5, 447, 224, 2, 1216, 1217, 5, 417, 209, 2, 1217, 1218, 5, 455, 228, 2, 1218, 1219, 5, 431, 216, 2, 1219, 268, 3, 2, 2, 2, 1220, 1221, 5, 421, 211, 2, 1221, 1222, 5, 465, 233, 2, 1222, 1223, 5, 421, 211, 2, 1223, 1224, 5, 439, 220, 2, 1224, 1225, 5, 425, 213, 2, 1225, 1226, 5, 419, 210, 2, 1226, 1227, 5, 445, 223, 2, 1227, 1228, 5, 445, 223, 2, 1228, 1229, 5, 439, 220, 2, 1229, 1230, 5, 425, 213, 2, 1230, 1231, 5, 417, 209, 2, 1231, 1232, 5, 443, 222, 2, 1232, 270, 3, 2, 2, 2, 1233, 1234, 5, 453, 227, 2, 1234, 1235, 5, 431, 216, 2, 1235, 1236, 5, 445, 223, 2, 1236, 1237, 5, 451, 226, 2, 1237, 1238, 5, 455, 228, 2, 1238, 1239, 5, 425, 213, 2, 1239, 1240, 5, 453, 227, 2, 1240, 1241, 5, 455, 228, 2, 1241, 1242, 5, 447, 224, 2, 1242, 1243, 5, 417, 209, 2, 1243, 1244, 5, 455, 228, 2, 1244, 1245, 5, 431, 216, 2, 1245, 272, 3, 2, 2, 2, 1246, 1247, 5, 453, 227, 2, 1247, 1248, 5, 431, 216, 2, 1248, 1249, 5, 445, 223, 2, 1249, 1250, 5, 451, 226, 2, 1250, 1251, 5, 455, 228, 2, 1251, 1252, 5, 425, 213, 2, 1252, 1253, 5, 453, 227, 2, 1253, 1254, 5, 455, 228, 2, 1254, 1255, 5, 447, 224, 2, 1255, 1256, 5, 417, 209, 2, 1256, 1257, 5, 455, 228, 2, 1257, 1258, 5, 431, 216, 2, 1258, 1259, 5, 439, 220, 2, 1259, 1260, 5, 425, 213, 2, 1260, 1261, 5, 443, 222, 2, 1261, 274, 3, 2, 2, 2, 1262, 1263, 5, 437, 219, 2, 1263, 1264, 5, 431, 216, 2, 1264, 1265, 5, 445, 223, 2, 1265, 1266, 5, 447, 224, 2, 1266, 1267, 5, 451, 226, 2, 1267, 1268, 5, 425, 213, 2, 1268, 1269, 5, 417, 209, 2, 1269, 1270, 5, 421, 211, 2, 1270, 1271, 5, 431, 216, 2, 1271, 1272, 5, 417, 209, 2, 1272, 1273, 5, 419, 210, 2, 1273, 1274, 5, 439, 220, 2, 1274, 1275, 5, 425, 213, 2, 1275, 276, 3, 2, 2, 2, 1276, 1277, 5, 437, 219, 2, 1277, 1278, 5, 431, 216, 2, 1278, 1279, 5, 445, 223, 2, 1279, 1280, 5, 447, 224, 2, 1280, 1281, 5, 425, 213, 2, 1281, 1282, 5, 443, 222, 2, 1282, 1283, 5, 457, 229, 2, 1283, 1284, 5, 441, 221, 2, 1284, 1285, 5, 425, 213, 2, 1285, 1286, 5, 451, 226, 2, 1286, 1287, 5, 417, 209, 2, 1287, 1288, 5, 455, 228, 2, 1288, 1289, 5, 425, 213, 2, 1289, 278, 3, 2, 2, 2, 1290, 1291, 5, 437, 219, 2, 1291, 1292, 5, 431, 216, 2, 1292, 1293, 5, 445, 223, 2, 1293, 1294, 5, 447, 224, 2, 1294, 1295, 5, 451, 226, 2, 1295, 1296, 5, 425, 213, 2, 1296, 1297, 5, 417, 209, 2, 1297, 1298, 5, 421, 211, 2, 1298, 1299, 5, 431, 216, 2, 1299, 1300, 5, 417, 209, 2, 1300, 1301, 5, 419, 210, 2, 1301, 1302, 5, 439, 220, 2, 1302, 1303, 5, 425, 213, 2, 1303, 1304, 5, 447, 224, 2, 1304, 1305, 5, 417, 209, 2, 1305, 1306, 5, 455, 228, 2, 1306, 1307, 5, 431, 216, 2, 1307, 280, 3, 2, 2, 2, 1308, 1309, 5, 447, 224, 2, 1309, 1310, 5, 447, 224, 2, 1310, 1311, 5, 451, 226, 2, 1311, 282, 3, 2, 2, 2, 1312, 1313, 5, 455, 228, 2, 1313, 1314, 5, 451, 226, 2, 1314, 1315, 5, 433, 217, 2, 1315, 1316, 5, 417, 209, 2, 1316, 1317, 5, 443, 222, 2, 1317, 1318, 5, 429, 215, 2, 1318, 1319, 5, 439, 220, 2, 1319, 1320, 5, 425, 213, 2, 1320, 1321, 5, 421, 211, 2, 1321, 1322, 5, 445, 223, 2, 1322, 1323, 5, 457, 229, 2, 1323, 1324, 5, 443, 222, 2, 1324, 1325, 5, 455, 228, 2, 1325, 1326, 5, 433, 217, 2, 1326, 1327, 5, 443, 222, 2, 1327, 1328, 5, 429, 215, 2, 1328, 284, 3, 2, 2, 2, 1329, 1330, 5, 421, 211, 2, 1330, 1331, 5, 439, 220, 2, 1331, 1332, 5, 445, 223, 2, 1332, 1333, 5, 453, 227, 2, 1333, 1334, 5, 425, 213, 2, 1334, 1335, 5, 443, 222, 2, 1335, 1336, 5, 425, 213, 2, 1336, 1337, 5, 453, 227, 2, 1337, 1338, 5, 453, 227, 2, 1338, 1339, 5, 421, 211, 2, 1339, 1340, 5, 425, 213, 2, 1340, 1341, 5, 443, 222, 2, 1341, 1342, 5, 455, 228, 2, 1342, 1343, 5, 451, 226, 2, 1343, 1344, 5, 417, 209, 2, 1344, 1345, 5, 439, 220, 2, 1345, 1346, 5, 433, 217, 2, 1346, 1347, 5, 455, 228, 2, 1347, 1348, 5, 465, 233, 2, 1348, 286, 3, 2, 2, 2, 1349, 1350, 5, 419, 210, 2, 1350, 1351, 5, 427, 214, 2, 1351, 1352, 5, 453, 227, 2, 1352, 1353, 5, 421, 211, 2, 1353, 1354, 5, 445, 223, 2, 1354, 1355, 5, 457, 229, 2, 1355, 1356, 5, 443, 222, 2, 1356, 1357, 5, 455, 228, 2, 1357, 288, 3, 2, 2, 2, 1358, 1359, 5, 447, 224, 2, 1359, 1360, 5, 451, 226, 2, 1360, 290, 3, 2, 2, 2, 1361, 1362, 5, 417, 209, 2, 1362, 1363, 5, 439, 220, 2, 1363, 1364, 5, 447, 224, 2, 1364, 1365, 5, 431, 216, 2, 1365, 1366, 5, 417, 209, 2, 1366, 292, 3, 2, 2, 2, 1367, 1368, 5, 441, 221, 2, 1368, 1369, 5, 417, 209, 2, 1369, 1370, 5, 463, 232, 2, 1370, 1371, 5, 433, 217, 2, 1371, 1372, 5, 455, 228, 2, 1372, 1373, 5, 425, 213, 2, 1373, 1374, 5, 451, 226, 2, 1374, 294, 3, 2, 2, 2, 1375, 1376, 5, 455, 228, 2, 1376, 1377, 5, 445, 223, 2, 1377, 1378, 5, 439, 220, 2, 1378, 296, 3, 2, 2, 2, 1379, 1380, 5, 453, 227, 2, 1380, 1381, 5, 453, 227, 2, 1381, 1382, 5, 453, 227, 2, 1382, 1383, 5, 447, 224, 2, 1383, 298, 3, 2, 2, 2, 1384, 1385, 5, 453, 227, 2, 1385, 1386, 5, 453, 227, 2, 1386, 1387, 5, 453, 227, 2, 1387, 1388, 5, 447, 224, 2, 1388, 1389, 5, 439, 220, 2, 1389, 1390, 5, 425, 213, 2, 1390, 1391, 5, 443, 222, 2, 1391, 300, 3, 2, 2, 2, 1392, 1393, 5, 439, 220, 2, 1393, 1394, 5, 417, 209, 2, 1394, 1395, 5, 419, 210, 2, 1395, 1396, 5, 425, 213, 2, 1396, 1397, 5, 439, 220, 2, 1397, 1398, 5, 447, 224, 2, 1398, 1399, 5, 451, 226, 2, 1399, 1400, 5, 445, 223, 2, 1400, 1401, 5, 447, 224, 2, 1401, 302, 3, 2, 2, 2, 1402, 1403, 5, 461, 231, 2, 1403, 1404, 5, 421, 211, 2, 1404, 1405, 5, 421, 211, 2, 1405, 304, 3, 2, 2, 2, 1406, 1407, 5, 421, 211, 2, 1407, 1408, 5, 439, 220, 2, 1408, 1409, 5, 457, 229, 2, 1409, 1410, 5, 453, 227, 2, 1410, 1411, 5, 455, 228, 2, 1411, 1412, 5, 425, 213, 2, 1412, 1413, 5, 451, 226, 2, 1413, 1414, 5, 421, 211, 2, 1414, 1415, 5, 445, 223, 2, 1415, 1416, 5, 425, 213, 2, 1416, 1417, 5, 427, 214, 2, 1417, 1418, 5, 427, 214, 2, 1418, 306, 3, 2, 2, 2, 1419, 1420, 5, 441, 221, 2, 1420, 1421, 5, 417, 209, 2, 1421, 1422, 5, 463, 232, 2, 1422, 1423, 5, 433, 217, 2, 1423, 1424, 5, 441, 221, 2, 1424, 1425, 5, 457, 229, 2, 1425, 1426, 5, 441, 221, 2, 1426, 1427, 5, 437, 219, 2, 1427, 1428, 5, 447, 224, 2, 1428, 1429, 5, 439, 220, 2, 1429, 1430, 5, 425, 213, 2, 1430, 1431, 5, 463, 232, 2, 1431, 308, 3, 2, 2, 2, 1432, 1433, 5, 421, 211, 2, 1433, 1434, 5, 445, 223, 2, 1434, 1435, 5, 451, 226, 2, 1435, 1436, 5, 425, 213, 2, 1436, 1437, 5, 455, 228, 2, 1437, 1438, 5, 451, 226, 2, 1438, 1439, 5, 457, 229, 2, 1439, 1440, 5, 453, 227, 2, 1440, 1441, 5, 453, 227, 2, 1441, 310, 3, 2, 2, 2, 1442, 1443, 5, 447, 224, 2, 1443, 1444, 5, 427, 214, 2, 1444, 1445, 5, 443, 222, 2, 1445, 312, 3, 2, 2, 2, 1446, 1447, 5, 437, 219, 2, 1447, 1448, 5, 431, 216, 2, 1448, 1449, 5, 445, 223, 2, 1449, 1450, 5, 447, 224, 2, 1450, 1451, 5, 421, 211, 2, 1451, 1452, 5, 445, 223, 2, 1452, 1453, 5, 457, 229, 2, 1453, 1454, 5, 443, 222, 2, 1454, 1455, 5, 455, 228, 2, 1455, 314, 3, 2, 2, 2, 1456, 1457, 5, 437, 219, 2, 1457, 1458, 5, 431, 216, 2, 1458, 1459, 5, 445, 223, 2, 1459, 1460, 5, 447, 224, 2, 1460, 1461, 5, 443, 222, 2, 1461, 1462, 5, 425, 213, 2, 1462, 1463, 5, 433, 217, 2, 1463, 1464, 5, 429, 215, 2, 1464, 1465, 5, 431, 216, 2, 1465, 1466, 5, 419, 210, 2, 1466, 1467, 5, 445, 223, 2, 1467, 1468, 5, 451, 226, 2, 1468, 316, 3, 2, 2, 2, 1469, 1470, 5, 453, 227, 2, 1470, 1471, 5, 431, 216, 2, 1471, 1472, 5, 445, 223, 2, 1472, 1473, 5, 451, 226, 2, 1473, 1474, 5, 455, 228, 2, 1474, 1475, 5, 425, 213, 2, 1475, 1476, 5, 453, 227, 2, 1476, 1477, 5, 455, 228, 2, 1477, 1478, 5, 447, 224, 2, 1478, 1479, 5, 417, 209, 2, 1479, 1480, 5, 455, 228, 2, 1480, 1481, 5, 431, 216, 2, 1481, 1482, 5, 421, 211, 2, 1482, 1483, 5, 445, 223, 2, 1483, 1484, 5, 457, 229, 2, 1484, 1485, 5, 443, 222, 2, 1485, 1486, 5, 455, 228, 2, 1486, 318, 3, 2, 2, 2, 1487, 1488, 5, 439, 220, 2, 1488, 1489, 5, 445, 223, 2, 1489, 1490, 5, 457, 229, 2, 1490, 1491, 5, 459, 230, 2, 1491, 1492, 5, 417, 209, 2, 1492, 1493, 5, 433, 217, 2, 1493, 1494, 5, 443, 222, 2, 1494, 320, 3, 2, 2, 2, 1495, 1496, 5, 433, 217, 2, 1496, 1497, 5, 421, 211, 2, 1497, 1498, 7, 51, 2, 2, 1498, 1499, 7, 54, 2, 2, 1499, 322, 3, 2, 2, 2, 1500, 1501, 5, 433, 217, 2, 1501, 1502, 5, 443, 222, 2, 1502, 1503, 5, 421, 211, 2, 1503, 1504, 5, 451, 226, 2, 1504, 1505, 5, 425, 213, 2, 1505, 1506, 5, 417, 209, 2, 1506, 1507, 5, 453, 227, 2, 1507, 1508, 5, 425, 213, 2, 1508, 324, 3, 2, 2, 2, 1509, 1510, 5, 433, 217, 2, 1510, 1511, 5, 443, 222, 2, 1511, 1512, 5, 453, 227, 2, 1512, 1513, 5, 425, 213, 2, 1513, 1514, 5, 451, 226, 2, 1514, 1515, 5, 455, 228, 2, 1515, 1516, 7, 34, 2, 2, 1516, 1517, 5, 423, 212, 2, 1517, 1518, 5, 417, 209, 2, 1518, 1519, 5, 455, 228, 2, 1519, 1520, 5, 417, 209, 2, 1520, 326, 3, 2, 2, 2, 1521, 1522, 5, 423, 212, 2, 1522, 1523, 5, 425, 213, 2, 1523, 1524, 5, 439, 220, 2, 1524, 1525, 5, 425, 213, 2, 1525, 1526, 5, 455, 228, 2, 1526, 1527, 5, 425, 213, 2, 1527, 1528, 7, 34, 2, 2, 1528, 1529, 5, 423, 212, 2, 1529, 1530, 5, 417, 209, 2, 1530, 1531, 5, 455, 228, 2, 1531, 1532, 5, 417, 209, 2, 1532, 328, 3, 2, 2, 2, 1533, 1534, 5, 423, 212, 2, 1534, 1535, 5, 425, 213, 2, 1535, 1536, 5, 439, 220, 2, 1536, 1537, 5, 425, 213, 2, 1537, 1538, 5, 455, 228, 2, 1538, 1539, 5, 425, 213, 2, 1539, 1540, 7, 34, 2, 2, 1540, 1541, 5, 461, 231, 2, 1541, 1542, 5, 431, 216, 2, 1542, 1543, 5, 425, 213, 2, 1543, 1544, 5, 451, 226, 2, 1544, 1545, 5, 425, 213, 2, 1545, 330, 3, 2, 2, 2, 1546, 1547, 5, 425, 213, 2, 1547, 1548, 5, 443, 222, 2, 1548, 1549, 5, 421, 211, 2, 1549, 1550, 5, 445, 223, 2, 1550, 1551, 5, 423, 212, 2, 1551, 1552, 5, 425, 213, 2, 1552, 1553, 7, 97, 2, 2, 1553, 1554, 5, 427, 214, 2, 1554, 1555, 5, 445, 223, 2, 1555, 1556, 5, 451, 226, 2, 1556, 1557, 7, 97, 2, 2, 1557, 1558, 5, 457, 229, 2, 1558, 1559, 5, 451, 226, 2, 1559, 1560, 5, 433, 217, 2, 1560, 332, 3, 2, 2, 2, 1561, 1562, 5, 441, 221, 2, 1562, 1563, 5, 423, 212, 2, 1563, 1564, 7, 55, 2, 2, 1564, 334, 3, 2, 2, 2, 1565, 1566, 5, 453, 227, 2, 1566, 1567, 5, 431, 216, 2, 1567, 1568, 5, 417, 209, 2, 1568, 1569, 7, 51, 2, 2, 1569, 336, 3, 2, 2, 2, 1570, 1571, 5, 453, 227, 2, 1571, 1572, 5, 431, 216, 2, 1572, 1573, 5, 417, 209, 2, 1573, 1574, 7, 52, 2, 2, 1574, 1575, 7, 55, 2, 2, 1575, 1576, 7, 56, 2, 2, 1576, 338, 3, 2, 2, 2, 1577, 1578, 5, 453, 227, 2, 1578, 1579, 5, 431, 216, 2, 1579, 1580, 5, 417, 209, 2, 1580, 1581, 7, 53, 2, 2, 1581, 1582, 7, 58, 2, 2, 1582, 1583, 7, 54, 2, 2, 1583, 340, 3, 2, 2, 2, 1584, 1585, 5, 453, 227, 2, 1585, 1586, 5, 431, 216, 2, 1586, 1587, 5, 417, 209, 2, 1587, 1588, 7, 55, 2, 2, 1588, 1589, 7, 51, 2, 2, 1589, 1590, 7, 52, 2, 2, 1590, 342, 3, 2, 2, 2, 1591, 1592, 5, 429, 215, 2, 1592, 1593, 5, 451, 226, 2, 1593, 1594, 5, 445, 223, 2, 1594, 1595, 5, 457, 229, 2, 1595, 1596, 5, 447, 224, 2, 1596, 1597, 7, 97, 2, 2, 1597, 1598, 5, 421, 211, 2, 1598, 1599, 5, 445, 223, 2, 1599, 1600, 5, 443, 222, 2, 1600, 1601, 5, 421, 211, 2, 1601, 1602, 5, 417, 209, 2, 1602, 1603, 5, 455, 228, 2, 1603, 344, 3, 2, 2, 2, 1604, 1608, 7, 62, 2, 2, 1605, 1607, 10, 2, 2, 2, 1606, 1605, 3, 2, 2, 2, 1607, 1610, 3, 2, 2, 2, 1608, 1606, 3, 2, 2, 2, 1608, 1609, 3, 2, 2, 2, 1609, 1611, 3, 2, 2, 2, 1610, 1608, 3, 2, 2, 2, 1611, 1612, 7, 64, 2, 2, 1612, 346, 3, 2, 2, 2, 1613, 1615, 5, 403, 202, 2, 1614, 1613, 3, 2, 2, 2, 1614, 1615, 3, 2, 2, 2, 1615, 1616, 3, 2, 2, 2, 1616, 1617, 7, 60, 2, 2, 1617, 348, 3, 2, 2, 2, 1618, 1619, 5, 347, 174, 2, 1619, 1620, 5, 405, 203, 2, 1620, 350, 3, 2, 2, 2, 1621, 1622, 7, 97, 2, 2, 1622, 1623, 7, 60, 2, 2, 1623, 1626, 3, 2, 2, 2, 1624, 1627, 5, 397, 199, 2, 1625, 1627, 9, 3, 2, 2, 1626, 1624, 3, 2, 2, 2, 1626, 1625, 3, 2, 2, 2, 1627, 1636, 3, 2, 2, 2, 1628, 1631, 5, 401, 201, 2, 1629, 1631, 7, 48, 2, 2, 1630, 1628, 3, 2, 2, 2, 1630, 1629, 3, 2, 2, 2, 1631, 1634, 3, 2, 2, 2, 1632, 1630, 3, 2, 2, 2, 1632, 1633, 3, 2, 2, 2, 1633, 1635, 3, 2, 2, 2, 1634, 1632, 3, 2, 2, 2, 1635, 1637, 5, 401, 201, 2, 1636, 1632, 3, 2, 2, 2, 1636, 1637, 3, 2, 2, 2, 1637, 352, 3, 2, 2, 2, 1638, 1639, 7, 65, 2, 2, 1639, 1640, 5, 399, 200, 2, 1640, 354, 3, 2, 2, 2, 1641, 1642, 7, 38, 2, 2, 1642, 1643, 5, 399, 200, 2, 1643, 356, 3, 2, 2, 2, 1644, 1646, 7, 66, 2, 2, 1645, 1647, 9, 4, 2, 2, 1646, 1645, 3, 2, 2, 2, 1647, 1648, 3, 2, 2, 2, 1648, 1646, 3, 2, 2, 2, 1648, 1649, 3, 2, 2, 2, 1649, 1658, 3, 2, 2, 2, 1650, 1652, 7, 47, 2, 2, 1651, 1653, 9, 5, 2, 2, 1652, 1651, 3, 2, 2, 2, 1653, 1654, 3, 2, 2, 2, 1654, 1652, 3, 2, 2, 2, 1654, 1655, 3, 2, 2, 2, 1655, 1657, 3, 2, 2, 2, 1656, 1650, 3, 2, 2, 2, 1657, 1660, 3, 2, 2, 2, 1658, 1656, 3, 2, 2, 2, 1658, 1659, 3, 2, 2, 2, 1659, 358, 3, 2, 2, 2, 1660, 1658, 3, 2, 2, 2, 1661, 1663, 9, 3, 2, 2, 1662, 1661, 3, 2, 2, 2, 1663, 1664, 3, 2, 2, 2, 1664, 1662, 3, 2, 2, 2, 1664, 1665, 3, 2, 2, 2, 1665, 360, 3, 2, 2, 2, 1666, 1668, 9, 3, 2, 2, 1667, 1666, 3, 2, 2, 2, 1668, 1671, 3, 2, 2, 2, 1669, 1667, 3, 2, 2, 2, 1669, 1670, 3, 2, 2, 2, 1670, 1672, 3, 2, 2, 2, 1671, 1669, 3, 2, 2, 2, 1672, 1674, 7, 48, 2, 2, 1673, 1675, 9, 3, 2, 2, 1674, 1673, 3, 2, 2, 2, 1675, 1676, 3, 2, 2, 2, 1676, 1674, 3, 2, 2, 2, 1676, 1677, 3, 2, 2, 2, 1677, 362, 3, 2, 2, 2, 1678, 1680, 9, 3, 2, 2, 1679, 1678, 3, 2, 2, 2, 1680, 1681, 3, 2, 2, 2, 1681, 1679, 3, 2, 2, 2, 1681, 1682, 3, 2, 2, 2, 1682, 1683, 3, 2, 2, 2, 1683, 1687, 7, 48, 2, 2, 1684, 1686, 9, 3, 2, 2, 1685, 1684, 3, 2, 2, 2, 1686, 1689, 3, 2, 2, 2, 1687, 1685, 3, 2, 2, 2, 1687, 1688, 3, 2, 2, 2, 1688, 1690, 3, 2, 2, 2, 1689, 1687, 3, 2, 2, 2, 1690, 1705, 5, 377, 189, 2, 1691, 1693, 7, 48, 2, 2, 1692, 1694, 9, 3, 2, 2, 1693, 1692, 3, 2, 2, 2, 1694, 1695, 3, 2, 2, 2, 1695, 1693, 3, 2, 2, 2, 1695, 1696, 3, 2, 2, 2, 1696, 1697, 3, 2, 2, 2, 1697, 1705, 5, 377, 189, 2, 1698, 1700, 9, 3, 2, 2, 1699, 1698, 3, 2, 2, 2, 1700, 1701, 3, 2, 2, 2, 1701, 1699, 3, 2, 2, 2, 1701, 1702, 3, 2, 2, 2, 1702, 1703, 3, 2, 2, 2, 1703, 1705, 5, 377, 189, 2, 1704, 1679, 3, 2, 2, 2, 1704, 1691, 3, 2, 2, 2, 1704, 1699, 3, 2, 2, 2, 1705, 364, 3, 2, 2, 2, 1706, 1707, 7, 45, 2, 2, 1707, 1708, 5, 359, 180, 2, 1708, 366, 3, 2, 2, 2, 1709, 1710, 7, 45, 2, 2, 1710, 1711, 5, 361, 181, 2, 1711, 368, 3, 2, 2, 2, 1712, 1713, 7, 45, 2, 2, 1713, 1714, 5, 363, 182, 2, 1714, 370, 3, 2, 2, 2, 1715, 1716, 7, 47, 2, 2, 1716, 1717, 5, 359, 180, 2, 1717, 372, 3, 2, 2, 2, 1718, 1719, 7, 47, 2, 2, 1719, 1720, 5, 361, 181, 2, 1720, 374, 3, 2, 2, 2, 1721, 1722, 7, 47, 2, 2, 1722, 1723, 5, 363, 182, 2, 1723, 376, 3, 2, 2, 2, 1724, 1726, 9, 6, 2, 2, 1725, 1727, 9, 7, 2, 2, 1726, 1725, 3, 2, 2, 2, 1726, 1727, 3, 2, 2, 2, 1727, 1729, 3, 2, 2, 2, 1728, 1730, 9, 3, 2, 2, 1729, 1728, 3, 2, 2, 2, 1730, 1731, 3, 2, 2, 2, 1731, 1729, 3, 2, 2, 2, 1731, 1732, 3, 2, 2, 2, 1732, 378, 3, 2, 2, 2, 1733, 1738, 7, 41, 2, 2, 1734, 1737, 10, 8, 2, 2, 1735, 1737, 5, 387, 194, 2, 1736, 1734, 3, 2, 2, 2, 1736, 1735, 3, 2, 2, 2, 1737, 1740, 3, 2, 2, 2, 1738, 1736, 3, 2, 2, 2, 1738, 1739, 3, 2, 2, 2, 1739, 1741, 3, 2, 2, 2, 1740, 1738, 3, 2, 2, 2, 1741, 1742, 7, 41, 2, 2, 1742, 380, 3, 2, 2, 2, 1743, 1748, 7, 36, 2, 2, 1744, 1747, 10, 9, 2, 2, 1745, 1747, 5, 387, 194, 2, 1746, 1744, 3, 2, 2, 2, 1746, 1745, 3, 2, 2, 2, 1747, 1750, 3, 2, 2, 2, 1748, 1746, 3, 2, 2, 2, 1748, 1749, 3, 2, 2, 2, 1749, 1751, 3, 2, 2, 2, 1750, 1748, 3, 2, 2, 2, 1751, 1752, 7, 36, 2, 2, 1752, 382, 3, 2, 2, 2, 1753, 1754, 7, 41, 2, 2, 1754, 1755, 7, 41, 2, 2, 1755, 1756, 7, 41, 2, 2, 1756, 1768, 3, 2, 2, 2, 1757, 1761, 7, 41, 2, 2, 1758, 1759, 7, 41, 2, 2, 1759, 1761, 7, 41, 2, 2, 1760, 1757, 3, 2, 2, 2, 1760, 1758, 3, 2, 2, 2, 1760, 1761, 3, 2, 2, 2, 1761, 1764, 3, 2, 2, 2, 1762, 1765, 9, 10, 2, 2, 1763, 1765, 5, 387, 194, 2, 1764, 1762, 3, 2, 2, 2, 1764, 1763, 3, 2, 2, 2, 1765, 1767, 3, 2, 2, 2, 1766, 1760, 3, 2, 2, 2, 1767, 1770, 3, 2, 2, 2, 1768, 1766, 3, 2, 2, 2, 1768, 1769, 3, 2, 2, 2, 1769, 1771, 3, 2, 2, 2, 1770, 1768, 3, 2, 2, 2, 1771, 1772, 7, 41, 2, 2, 1772, 1773, 7, 41, 2, 2, 1773, 1774, 7, 41, 2, 2, 1774, 384, 3, 2, 2, 2, 1775, 1776, 7, 36, 2, 2, 1776, 1777, 7, 36, 2, 2, 1777, 1778, 7, 36, 2, 2, 1778, 1790, 3, 2, 2, 2, 1779, 1783, 7, 36, 2, 2, 1780, 1781, 7, 36, 2, 2, 1781, 1783, 7, 36, 2, 2, 1782, 1779, 3, 2, 2, 2, 1782, 1780, 3, 2, 2, 2, 1782, 1783, 3, 2, 2, 2, 1783, 1786, 3, 2, 2, 2, 1784, 1787, 9, 11, 2, 2, 1785, 1787, 5, 387, 194, 2, 1786, 1784, 3, 2, 2, 2, 1786, 1785, 3, 2, 2, 2, 1787, 1789, 3, 2, 2, 2, 1788, 1782, 3, 2, 2, 2, 1789, 1792, 3, 2, 2, 2, 1790, 1788, 3, 2, 2, 2, 1790, 1791, 3, 2, 2, 2, 1791, 1793, 3, 2, 2, 2, 1792, 1790, 3, 2, 2, 2, 1793, 1794, 7, 36, 2, 2, 1794, 1795, 7, 36, 2, 2, 1795, 1796, 7, 36, 2, 2, 1796, 386, 3, 2, 2, 2, 1797, 1798, 7, 94, 2, 2, 1798, 1799, 9, 12, 2, 2, 1799, 388, 3, 2, 2, 2, 1800, 1804, 7, 42, 2, 2, 1801, 1803, 5, 391, 196, 2, 1802, 1801, 3, 2, 2, 2, 1803, 1806, 3, 2, 2, 2, 1804, 1802, 3, 2, 2, 2, 1804, 1805, 3, 2, 2, 2, 1805, 1807, 3, 2, 2, 2, 1806, 1804, 3, 2, 2, 2, 1807, 1808, 7, 43, 2, 2, 1808, 390, 3, 2, 2, 2, 1809, 1810, 9, 13, 2, 2, 1810, 1811, 3, 2, 2, 2, 1811, 1812, 8, 196, 2, 2, 1812, 392, 3, 2, 2, 2, 1813, 1817, 7, 93, 2, 2, 1814, 1816, 5, 391, 196, 2, 1815, 1814, 3, 2, 2, 2, 1816, 1819, 3, 2, 2, 2, 1817, 1815, 3, 2, 2, 2, 1817, 1818, 3, 2, 2, 2, 1818, 1820, 3, 2, 2, 2, 1819, 1817, 3, 2, 2, 2, 1820, 1821, 7, 95, 2, 2, 1821, 394, 3, 2, 2, 2, 1822, 1824, 9, 45, 2, 2, 1823, 1822, 3, 2, 2, 2, 1824, 396, 3, 2, 2, 2, 1825, 1828, 5, 395, 198, 2, 1826, 1828, 7, 97, 2, 2, 1827, 1825, 3, 2, 2, 2, 1827, 1826, 3, 2, 2, 2, 1828, 398, 3, 2, 2, 2, 1829, 1832, 5, 397, 199, 2, 1830, 1832, 9, 3, 2, 2, 1831, 1829, 3, 2, 2, 2, 1831, 1830, 3, 2, 2, 2, 1832, 1837, 3, 2, 2, 2, 1833, 1836, 5, 397, 199, 2, 1834, 1836, 9, 14, 2, 2, 1835, 1833, 3, 2, 2, 2, 1835, 1834, 3, 2, 2, 2, 1836, 1839, 3, 2, 2, 2, 1837, 1835, 3, 2, 2, 2, 1837, 1838, 3, 2, 2, 2, 1838, 400, 3, 2, 2, 2, 1839, 1837, 3, 2, 2, 2, 1840, 1843, 5, 397, 199, 2, 1841, 1843, 9, 15, 2, 2, 1842, 1840, 3, 2, 2, 2, 1842, 1841, 3, 2, 2, 2, 1843, 402, 3, 2, 2, 2, 1844, 1853, 5, 395, 198, 2, 1845, 1848, 5, 401, 201, 2, 1846, 1848, 7, 48, 2, 2, 1847, 1845, 3, 2, 2, 2, 1847, 1846, 3, 2, 2, 2, 1848, 1851, 3, 2, 2, 2, 1849, 1847, 3, 2, 2, 2, 1849, 1850, 3, 2, 2, 2, 1850, 1852, 3, 2, 2, 2, 1851, 1849, 3, 2, 2, 2, 1852, 1854, 5, 401, 201, 2, 1853, 1849, 3, 2, 2, 2, 1853, 1854, 3, 2, 2, 2, 1854, 404, 3, 2, 2, 2, 1855, 1859, 5, 397, 199, 2, 1856, 1859, 4, 50, 60, 2, 1857, 1859, 5, 407, 204, 2, 1858, 1855, 3, 2, 2, 2, 1858, 1856, 3, 2, 2, 2, 1858, 1857, 3, 2, 2, 2, 1859, 1873, 3, 2, 2, 2, 1860, 1864, 5, 401, 201, 2, 1861, 1864, 9, 16, 2, 2, 1862, 1864, 5, 407, 204, 2, 1863, 1860, 3, 2, 2, 2, 1863, 1861, 3, 2, 2, 2, 1863, 1862, 3, 2, 2, 2, 1864, 1867, 3, 2, 2, 2, 1865, 1863, 3, 2, 2, 2, 1865, 1866, 3, 2, 2, 2, 1866, 1871, 3, 2, 2, 2, 1867, 1865, 3, 2, 2, 2, 1868, 1872, 5, 401, 201, 2, 1869, 1872, 7, 60, 2, 2, 1870, 1872, 5, 407, 204, 2, 1871, 1868, 3, 2, 2, 2, 1871, 1869, 3, 2, 2, 2, 1871, 1870, 3, 2, 2, 2, 1872, 1874, 3, 2, 2, 2, 1873, 1865, 3, 2, 2, 2, 1873, 1874, 3, 2, 2, 2, 1874, 406, 3, 2, 2, 2, 1875, 1878, 5, 409, 205, 2, 1876, 1878, 5, 413, 207, 2, 1877, 1875, 3, 2, 2, 2, 1877, 1876, 3, 2, 2, 2, 1878, 408, 3, 2, 2, 2, 1879, 1880, 7, 39, 2, 2, 1880, 1881, 5, 411, 206, 2, 1881, 1882, 5, 411, 206, 2, 1882, 410, 3, 2, 2, 2, 1883, 1885, 9, 17, 2, 2, 1884, 1883, 3, 2, 2, 2, 1885, 412, 3, 2, 2, 2, 1886, 1887, 7, 94, 2, 2, 1887, 1888, 9, 18, 2, 2, 1888, 414, 3, 2, 2, 2, 1889, 1893, 7, 37, 2, 2, 1890, 1892, 10, 19, 2, 2, 1891, 1890, 3, 2, 2, 2, 1892, 1895, 3, 2, 2, 2, 1893, 1891, 3, 2, 2, 2, 1893, 1894, 3, 2, 2, 2, 1894, 1896, 3, 2, 2, 2, 1895, 1893, 3, 2, 2, 2, 1896, 1897, 8, 208, 3, 2, 1897, 416, 3, 2, 2, 2, 1898, 1899, 9, 20, 2, 2, 1899, 418, 3, 2, 2, 2, 1900, 1901, 9, 21, 2, 2, 1901, 420, 3, 2, 2, 2, 1902, 1903, 9, 22, 2, 2, 1903, 422, 3, 2, 2, 2, 1904, 1905, 9, 23, 2, 2, 1905, 424, 3, 2, 2, 2, 1906, 1907, 9, 6, 2, 2, 1907, 426, 3, 2, 2, 2, 1908, 1909, 9, 24, 2, 2, 1909, 428, 3, 2, 2, 2, 1910, 1911, 9, 25, 2, 2, 1911, 430, 3, 2, 2, 2, 1912, 1913, 9, 26, 2, 2, 1913, 432, 3, 2, 2, 2, 1914, 1915, 9, 27, 2, 2, 1915, 434, 3, 2, 2, 2, 1916, 1917, 9, 28, 2, 2, 1917, 436, 3, 2, 2, 2, 1918, 1919, 9, 29, 2, 2, 1919, 438, 3, 2, 2, 2, 1920, 1921, 9, 30, 2, 2, 1921, 440, 3, 2, 2, 2, 1922, 1923, 9, 31, 2, 2, 1923, 442, 3, 2, 2, 2, 1924, 1925, 9, 32, 2, 2, 1925, 444, 3, 2, 2, 2, 1926, 1927, 9, 33, 2, 2, 1927, 446, 3, 2, 2, 2, 1928, 1929, 9, 34, 2, 2, 1929, 448, 3, 2, 2, 2, 1930, 1931, 9, 35, 2, 2, 1931, 450, 3, 2, 2, 2, 1932, 1933, 9, 36, 2, 2, 1933, 452, 3, 2, 2, 2, 1934, 1935, 9, 37, 2, 2, 1935, 454, 3, 2, 2, 2, 1936, 1937, 9, 38, 2, 2, 1937, 456, 3, 2, 2, 2, 1938, 1939, 9, 39, 2, 2, 1939, 458, 3, 2, 2, 2, 1940, 1941, 9, 40, 2, 2, 1941, 460, 3, 2, 2, 2, 1942, 1943, 9, 41, 2, 2, 1943, 462, 3, 2, 2, 2, 1944, 1945, 9, 42, 2, 2, 1945, 464, 3, 2, 2, 2, 1946, 1947, 9, 43, 2, 2, 1947, 466, 3, 2, 2, 2, 1948, 1949, 9, 44, 2, 2, 1949, 468, 3, 2, 2, 2, 51, 2, 1608, 1614, 1626, 1630, 1632, 1636, 1648, 1654, 1658, 1664, 1669, 1676, 1681, 1687, 1695, 1701, 1704, 1726, 1731, 1736, 1738, 1746, 1748, 1760, 1764, 1768, 1782, 1786, 1790, 1804, 1817, 1823, 1827, 1831, 1835, 1837, 1842, 1847, 1849, 1853, 1858, 1863, 1865, 1871, 1873, 1877, 1884, 1893, 4, 8, 2, 2, 2, 3, 2]
\ No newline at end of file
-- 
2.43.0


From a873fcdc2bf7a41e2dca4737e2a1567aa74853eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:53 +0000
Subject: [PATCH 44/86] fix: long string literals of SPARQL queries were not
 recognized

---
 Parser/SPARQL/SPARQL.g4          | 4 ++--
 Parser/SPARQL/SPARQLLexer.cpp    | 8 ++++----
 Parser/SPARQL/SPARQLLexer.interp | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/Parser/SPARQL/SPARQL.g4 b/Parser/SPARQL/SPARQL.g4
index 7082e6d..d6d2a67 100644
--- a/Parser/SPARQL/SPARQL.g4
+++ b/Parser/SPARQL/SPARQL.g4
@@ -422,8 +422,8 @@ DOUBLE_NEGATIVE : '-' DOUBLE ;
 EXPONENT : [eE] [+-]? [0-9]+ ;
 STRING_LITERAL1 : '\'' ( ~('\u0027' | '\u005C' | '\u000A' | '\u000D') | ECHAR )* '\'' ;
 STRING_LITERAL2 : '"'  ( ~('\u0022' | '\u005C' | '\u000A' | '\u000D') | ECHAR )* '"' ;
-STRING_LITERAL_LONG1 : '\'\'\'' ( ( '\'' | '\'\'' )? ( [^'\\] | ECHAR ) )* '\'\'\'' ;
-STRING_LITERAL_LONG2 : '"""' ( ( '"' | '""' )? ( [^"\\] | ECHAR ) )* '"""' ;
+STRING_LITERAL_LONG1 : '\'\'\'' ( ( '\'' | '\'\'' )? ( ~['\\] | ECHAR ) )* '\'\'\'' ;
+STRING_LITERAL_LONG2 : '"""' ( ( '"' | '""' )? ( ~["\\] | ECHAR ) )* '"""' ;
 ECHAR : '\\' ('t' | 'b' | 'n' | 'r' | 'f' | '\\' | '"' | '\'') ;
 NIL : '(' WS* ')' ;
 WS : (' ' | '\t' | '\r' | '\n') ->skip ;
diff --git a/Parser/SPARQL/SPARQLLexer.cpp b/Parser/SPARQL/SPARQLLexer.cpp
index 5871297..12e0a9f 100644
--- a/Parser/SPARQL/SPARQLLexer.cpp
+++ b/Parser/SPARQL/SPARQLLexer.cpp
@@ -530,8 +530,8 @@ SPARQLLexer::Initializer::Initializer() {
     0x32, 0x3b, 0x43, 0x5c, 0x63, 0x7c, 0x4, 0x2, 0x47, 0x47, 0x67, 0x67, 
     0x4, 0x2, 0x2d, 0x2d, 0x2f, 0x2f, 0x6, 0x2, 0xc, 0xc, 0xf, 0xf, 0x29, 
     0x29, 0x5e, 0x5e, 0x6, 0x2, 0xc, 0xc, 0xf, 0xf, 0x24, 0x24, 0x5e, 0x5e, 
-    0x5, 0x2, 0x29, 0x29, 0x5e, 0x5e, 0x60, 0x60, 0x5, 0x2, 0x24, 0x24, 
-    0x5e, 0x5e, 0x60, 0x60, 0xa, 0x2, 0x24, 0x24, 0x29, 0x29, 0x5e, 0x5e, 0x64, 0x64, 
+    0x4, 0x2, 0x29, 0x29, 0x5e, 0x5e, 0x4, 0x2, 0x24, 0x24, 
+    0x5e, 0x5e, 0xa, 0x2, 0x24, 0x24, 0x29, 0x29, 0x5e, 0x5e, 0x64, 0x64, 
     0x68, 0x68, 0x70, 0x70, 0x74, 0x74, 0x76, 0x76, 0x5, 0x2, 0xb, 0xc, 
     0xf, 0xf, 0x22, 0x22, 0x6, 0x2, 0x32, 0x3b, 0xb9, 0xb9, 0x302, 0x371, 
     0x2041, 0x2042, 0x7, 0x2, 0x2f, 0x2f, 0x32, 0x3b, 0xb9, 0xb9, 0x302, 
@@ -1418,7 +1418,7 @@ SPARQLLexer::Initializer::Initializer() {
     0x7, 0x29, 0x2, 0x2, 0x6df, 0x6e1, 0x7, 0x29, 0x2, 0x2, 0x6e0, 0x6dd, 
     0x3, 0x2, 0x2, 0x2, 0x6e0, 0x6de, 0x3, 0x2, 0x2, 0x2, 0x6e0, 0x6e1, 
     0x3, 0x2, 0x2, 0x2, 0x6e1, 0x6e4, 0x3, 0x2, 0x2, 0x2, 0x6e2, 0x6e5, 
-    0x9, 0xa, 0x2, 0x2, 0x6e3, 0x6e5, 0x5, 0x183, 0xc2, 0x2, 0x6e4, 0x6e2, 
+    0xa, 0xa, 0x2, 0x2, 0x6e3, 0x6e5, 0x5, 0x183, 0xc2, 0x2, 0x6e4, 0x6e2, 
     0x3, 0x2, 0x2, 0x2, 0x6e4, 0x6e3, 0x3, 0x2, 0x2, 0x2, 0x6e5, 0x6e7, 
     0x3, 0x2, 0x2, 0x2, 0x6e6, 0x6e0, 0x3, 0x2, 0x2, 0x2, 0x6e7, 0x6ea, 
     0x3, 0x2, 0x2, 0x2, 0x6e8, 0x6e6, 0x3, 0x2, 0x2, 0x2, 0x6e8, 0x6e9, 
@@ -1431,7 +1431,7 @@ SPARQLLexer::Initializer::Initializer() {
     0x7, 0x24, 0x2, 0x2, 0x6f5, 0x6f7, 0x7, 0x24, 0x2, 0x2, 0x6f6, 0x6f3, 
     0x3, 0x2, 0x2, 0x2, 0x6f6, 0x6f4, 0x3, 0x2, 0x2, 0x2, 0x6f6, 0x6f7, 
     0x3, 0x2, 0x2, 0x2, 0x6f7, 0x6fa, 0x3, 0x2, 0x2, 0x2, 0x6f8, 0x6fb, 
-    0x9, 0xb, 0x2, 0x2, 0x6f9, 0x6fb, 0x5, 0x183, 0xc2, 0x2, 0x6fa, 0x6f8, 
+    0xa, 0xb, 0x2, 0x2, 0x6f9, 0x6fb, 0x5, 0x183, 0xc2, 0x2, 0x6fa, 0x6f8, 
     0x3, 0x2, 0x2, 0x2, 0x6fa, 0x6f9, 0x3, 0x2, 0x2, 0x2, 0x6fb, 0x6fd, 
     0x3, 0x2, 0x2, 0x2, 0x6fc, 0x6f6, 0x3, 0x2, 0x2, 0x2, 0x6fd, 0x700, 
     0x3, 0x2, 0x2, 0x2, 0x6fe, 0x6fc, 0x3, 0x2, 0x2, 0x2, 0x6fe, 0x6ff, 
diff --git a/Parser/SPARQL/SPARQLLexer.interp b/Parser/SPARQL/SPARQLLexer.interp
index 182c8bd..6d306b3 100644
--- a/Parser/SPARQL/SPARQLLexer.interp
+++ b/Parser/SPARQL/SPARQLLexer.interp
@@ -661,4 +661,4 @@ mode names:
 DEFAULT_MODE
 
 atn:
-[3, 24715, 42794, 33075, 47597, 16764, 15335, 30598, 22884, 2, 209, 1950, 8, 1, 4, 2, 9, 2, 4, 3, 9, 3, 4, 4, 9, 4, 4, 5, 9, 5, 4, 6, 9, 6, 4, 7, 9, 7, 4, 8, 9, 8, 4, 9, 9, 9, 4, 10, 9, 10, 4, 11, 9, 11, 4, 12, 9, 12, 4, 13, 9, 13, 4, 14, 9, 14, 4, 15, 9, 15, 4, 16, 9, 16, 4, 17, 9, 17, 4, 18, 9, 18, 4, 19, 9, 19, 4, 20, 9, 20, 4, 21, 9, 21, 4, 22, 9, 22, 4, 23, 9, 23, 4, 24, 9, 24, 4, 25, 9, 25, 4, 26, 9, 26, 4, 27, 9, 27, 4, 28, 9, 28, 4, 29, 9, 29, 4, 30, 9, 30, 4, 31, 9, 31, 4, 32, 9, 32, 4, 33, 9, 33, 4, 34, 9, 34, 4, 35, 9, 35, 4, 36, 9, 36, 4, 37, 9, 37, 4, 38, 9, 38, 4, 39, 9, 39, 4, 40, 9, 40, 4, 41, 9, 41, 4, 42, 9, 42, 4, 43, 9, 43, 4, 44, 9, 44, 4, 45, 9, 45, 4, 46, 9, 46, 4, 47, 9, 47, 4, 48, 9, 48, 4, 49, 9, 49, 4, 50, 9, 50, 4, 51, 9, 51, 4, 52, 9, 52, 4, 53, 9, 53, 4, 54, 9, 54, 4, 55, 9, 55, 4, 56, 9, 56, 4, 57, 9, 57, 4, 58, 9, 58, 4, 59, 9, 59, 4, 60, 9, 60, 4, 61, 9, 61, 4, 62, 9, 62, 4, 63, 9, 63, 4, 64, 9, 64, 4, 65, 9, 65, 4, 66, 9, 66, 4, 67, 9, 67, 4, 68, 9, 68, 4, 69, 9, 69, 4, 70, 9, 70, 4, 71, 9, 71, 4, 72, 9, 72, 4, 73, 9, 73, 4, 74, 9, 74, 4, 75, 9, 75, 4, 76, 9, 76, 4, 77, 9, 77, 4, 78, 9, 78, 4, 79, 9, 79, 4, 80, 9, 80, 4, 81, 9, 81, 4, 82, 9, 82, 4, 83, 9, 83, 4, 84, 9, 84, 4, 85, 9, 85, 4, 86, 9, 86, 4, 87, 9, 87, 4, 88, 9, 88, 4, 89, 9, 89, 4, 90, 9, 90, 4, 91, 9, 91, 4, 92, 9, 92, 4, 93, 9, 93, 4, 94, 9, 94, 4, 95, 9, 95, 4, 96, 9, 96, 4, 97, 9, 97, 4, 98, 9, 98, 4, 99, 9, 99, 4, 100, 9, 100, 4, 101, 9, 101, 4, 102, 9, 102, 4, 103, 9, 103, 4, 104, 9, 104, 4, 105, 9, 105, 4, 106, 9, 106, 4, 107, 9, 107, 4, 108, 9, 108, 4, 109, 9, 109, 4, 110, 9, 110, 4, 111, 9, 111, 4, 112, 9, 112, 4, 113, 9, 113, 4, 114, 9, 114, 4, 115, 9, 115, 4, 116, 9, 116, 4, 117, 9, 117, 4, 118, 9, 118, 4, 119, 9, 119, 4, 120, 9, 120, 4, 121, 9, 121, 4, 122, 9, 122, 4, 123, 9, 123, 4, 124, 9, 124, 4, 125, 9, 125, 4, 126, 9, 126, 4, 127, 9, 127, 4, 128, 9, 128, 4, 129, 9, 129, 4, 130, 9, 130, 4, 131, 9, 131, 4, 132, 9, 132, 4, 133, 9, 133, 4, 134, 9, 134, 4, 135, 9, 135, 4, 136, 9, 136, 4, 137, 9, 137, 4, 138, 9, 138, 4, 139, 9, 139, 4, 140, 9, 140, 4, 141, 9, 141, 4, 142, 9, 142, 4, 143, 9, 143, 4, 144, 9, 144, 4, 145, 9, 145, 4, 146, 9, 146, 4, 147, 9, 147, 4, 148, 9, 148, 4, 149, 9, 149, 4, 150, 9, 150, 4, 151, 9, 151, 4, 152, 9, 152, 4, 153, 9, 153, 4, 154, 9, 154, 4, 155, 9, 155, 4, 156, 9, 156, 4, 157, 9, 157, 4, 158, 9, 158, 4, 159, 9, 159, 4, 160, 9, 160, 4, 161, 9, 161, 4, 162, 9, 162, 4, 163, 9, 163, 4, 164, 9, 164, 4, 165, 9, 165, 4, 166, 9, 166, 4, 167, 9, 167, 4, 168, 9, 168, 4, 169, 9, 169, 4, 170, 9, 170, 4, 171, 9, 171, 4, 172, 9, 172, 4, 173, 9, 173, 4, 174, 9, 174, 4, 175, 9, 175, 4, 176, 9, 176, 4, 177, 9, 177, 4, 178, 9, 178, 4, 179, 9, 179, 4, 180, 9, 180, 4, 181, 9, 181, 4, 182, 9, 182, 4, 183, 9, 183, 4, 184, 9, 184, 4, 185, 9, 185, 4, 186, 9, 186, 4, 187, 9, 187, 4, 188, 9, 188, 4, 189, 9, 189, 4, 190, 9, 190, 4, 191, 9, 191, 4, 192, 9, 192, 4, 193, 9, 193, 4, 194, 9, 194, 4, 195, 9, 195, 4, 196, 9, 196, 4, 197, 9, 197, 4, 198, 9, 198, 4, 199, 9, 199, 4, 200, 9, 200, 4, 201, 9, 201, 4, 202, 9, 202, 4, 203, 9, 203, 4, 204, 9, 204, 4, 205, 9, 205, 4, 206, 9, 206, 4, 207, 9, 207, 4, 208, 9, 208, 4, 209, 9, 209, 4, 210, 9, 210, 4, 211, 9, 211, 4, 212, 9, 212, 4, 213, 9, 213, 4, 214, 9, 214, 4, 215, 9, 215, 4, 216, 9, 216, 4, 217, 9, 217, 4, 218, 9, 218, 4, 219, 9, 219, 4, 220, 9, 220, 4, 221, 9, 221, 4, 222, 9, 222, 4, 223, 9, 223, 4, 224, 9, 224, 4, 225, 9, 225, 4, 226, 9, 226, 4, 227, 9, 227, 4, 228, 9, 228, 4, 229, 9, 229, 4, 230, 9, 230, 4, 231, 9, 231, 4, 232, 9, 232, 4, 233, 9, 233, 4, 234, 9, 234, 3, 2, 3, 2, 3, 3, 3, 3, 3, 4, 3, 4, 3, 5, 3, 5, 3, 6, 3, 6, 3, 7, 3, 7, 3, 8, 3, 8, 3, 9, 3, 9, 3, 10, 3, 10, 3, 11, 3, 11, 3, 12, 3, 12, 3, 13, 3, 13, 3, 14, 3, 14, 3, 15, 3, 15, 3, 16, 3, 16, 3, 17, 3, 17, 3, 18, 3, 18, 3, 19, 3, 19, 3, 19, 3, 20, 3, 20, 3, 20, 3, 21, 3, 21, 3, 22, 3, 22, 3, 22, 3, 23, 3, 23, 3, 24, 3, 24, 3, 25, 3, 25, 3, 25, 3, 26, 3, 26, 3, 26, 3, 27, 3, 27, 3, 28, 3, 28, 3, 28, 3, 29, 3, 29, 3, 29, 3, 29, 3, 29, 3, 30, 3, 30, 3, 30, 3, 30, 3, 30, 3, 30, 3, 31, 3, 31, 3, 31, 3, 31, 3, 32, 3, 32, 3, 32, 3, 32, 3, 32, 3, 33, 3, 33, 3, 33, 3, 33, 3, 33, 3, 33, 3, 34, 3, 34, 3, 34, 3, 35, 3, 35, 3, 35, 3, 35, 3, 36, 3, 36, 3, 36, 3, 36, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 38, 3, 38, 3, 38, 3, 39, 3, 39, 3, 39, 3, 39, 3, 39, 3, 39, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 41, 3, 41, 3, 41, 3, 41, 3, 41, 3, 41, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 44, 3, 44, 3, 44, 3, 44, 3, 44, 3, 44, 3, 45, 3, 45, 3, 45, 3, 46, 3, 46, 3, 46, 3, 46, 3, 46, 3, 47, 3, 47, 3, 47, 3, 47, 3, 47, 3, 48, 3, 48, 3, 48, 3, 48, 3, 48, 3, 48, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 53, 3, 53, 3, 53, 3, 53, 3, 54, 3, 54, 3, 54, 3, 54, 3, 54, 3, 54, 3, 55, 3, 55, 3, 55, 3, 55, 3, 55, 3, 55, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 57, 3, 57, 3, 57, 3, 57, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 59, 3, 59, 3, 59, 3, 59, 3, 59, 3, 60, 3, 60, 3, 60, 3, 60, 3, 60, 3, 61, 3, 61, 3, 61, 3, 61, 3, 61, 3, 61, 3, 62, 3, 62, 3, 62, 3, 62, 3, 62, 3, 63, 3, 63, 3, 63, 3, 64, 3, 64, 3, 64, 3, 64, 3, 65, 3, 65, 3, 65, 3, 65, 3, 66, 3, 66, 3, 66, 3, 66, 3, 66, 3, 67, 3, 67, 3, 67, 3, 68, 3, 68, 3, 68, 3, 68, 3, 68, 3, 69, 3, 69, 3, 69, 3, 69, 3, 69, 3, 70, 3, 70, 3, 70, 3, 70, 3, 70, 3, 71, 3, 71, 3, 71, 3, 71, 3, 71, 3, 71, 3, 72, 3, 72, 3, 72, 3, 72, 3, 72, 3, 72, 3, 73, 3, 73, 3, 73, 3, 73, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 75, 3, 75, 3, 75, 3, 75, 3, 75, 3, 75, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 77, 3, 77, 3, 77, 3, 77, 3, 77, 3, 77, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 80, 3, 80, 3, 80, 3, 80, 3, 81, 3, 81, 3, 81, 3, 81, 3, 81, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 85, 3, 85, 3, 85, 3, 85, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 89, 3, 89, 3, 89, 3, 89, 3, 89, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 91, 3, 91, 3, 91, 3, 91, 3, 91, 3, 92, 3, 92, 3, 92, 3, 92, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 94, 3, 94, 3, 94, 3, 94, 3, 94, 3, 94, 3, 95, 3, 95, 3, 95, 3, 95, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 102, 3, 102, 3, 102, 3, 102, 3, 102, 3, 102, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 105, 3, 105, 3, 105, 3, 105, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 108, 3, 108, 3, 108, 3, 108, 3, 108, 3, 108, 3, 109, 3, 109, 3, 109, 3, 109, 3, 109, 3, 109, 3, 110, 3, 110, 3, 110, 3, 110, 3, 110, 3, 110, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 112, 3, 112, 3, 112, 3, 112, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 115, 3, 115, 3, 115, 3, 115, 3, 115, 3, 115, 3, 116, 3, 116, 3, 116, 3, 116, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 118, 3, 118, 3, 118, 3, 118, 3, 118, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 120, 3, 120, 3, 120, 3, 120, 3, 120, 3, 120, 3, 121, 3, 121, 3, 121, 3, 122, 3, 122, 3, 122, 3, 122, 3, 122, 3, 122, 3, 123, 3, 123, 3, 123, 3, 123, 3, 123, 3, 124, 3, 124, 3, 124, 3, 124, 3, 124, 3, 124, 3, 125, 3, 125, 3, 125, 3, 125, 3, 125, 3, 125, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 128, 3, 128, 3, 128, 3, 128, 3, 128, 3, 128, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 130, 3, 130, 3, 130, 3, 130, 3, 130, 3, 130, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 141, 3, 141, 3, 141, 3, 141, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 145, 3, 145, 3, 145, 3, 146, 3, 146, 3, 146, 3, 146, 3, 146, 3, 146, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 148, 3, 148, 3, 148, 3, 148, 3, 149, 3, 149, 3, 149, 3, 149, 3, 149, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 152, 3, 152, 3, 152, 3, 152, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 156, 3, 156, 3, 156, 3, 156, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 161, 3, 161, 3, 161, 3, 161, 3, 161, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 167, 3, 167, 3, 167, 3, 167, 3, 168, 3, 168, 3, 168, 3, 168, 3, 168, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 173, 3, 173, 7, 173, 1607, 10, 173, 12, 173, 14, 173, 1610, 11, 173, 3, 173, 3, 173, 3, 174, 5, 174, 1615, 10, 174, 3, 174, 3, 174, 3, 175, 3, 175, 3, 175, 3, 176, 3, 176, 3, 176, 3, 176, 3, 176, 5, 176, 1627, 10, 176, 3, 176, 3, 176, 7, 176, 1631, 10, 176, 12, 176, 14, 176, 1634, 11, 176, 3, 176, 5, 176, 1637, 10, 176, 3, 177, 3, 177, 3, 177, 3, 178, 3, 178, 3, 178, 3, 179, 3, 179, 6, 179, 1647, 10, 179, 13, 179, 14, 179, 1648, 3, 179, 3, 179, 6, 179, 1653, 10, 179, 13, 179, 14, 179, 1654, 7, 179, 1657, 10, 179, 12, 179, 14, 179, 1660, 11, 179, 3, 180, 6, 180, 1663, 10, 180, 13, 180, 14, 180, 1664, 3, 181, 7, 181, 1668, 10, 181, 12, 181, 14, 181, 1671, 11, 181, 3, 181, 3, 181, 6, 181, 1675, 10, 181, 13, 181, 14, 181, 1676, 3, 182, 6, 182, 1680, 10, 182, 13, 182, 14, 182, 1681, 3, 182, 3, 182, 7, 182, 1686, 10, 182, 12, 182, 14, 182, 1689, 11, 182, 3, 182, 3, 182, 3, 182, 6, 182, 1694, 10, 182, 13, 182, 14, 182, 1695, 3, 182, 3, 182, 6, 182, 1700, 10, 182, 13, 182, 14, 182, 1701, 3, 182, 5, 182, 1705, 10, 182, 3, 183, 3, 183, 3, 183, 3, 184, 3, 184, 3, 184, 3, 185, 3, 185, 3, 185, 3, 186, 3, 186, 3, 186, 3, 187, 3, 187, 3, 187, 3, 188, 3, 188, 3, 188, 3, 189, 3, 189, 5, 189, 1727, 10, 189, 3, 189, 6, 189, 1730, 10, 189, 13, 189, 14, 189, 1731, 3, 190, 3, 190, 3, 190, 7, 190, 1737, 10, 190, 12, 190, 14, 190, 1740, 11, 190, 3, 190, 3, 190, 3, 191, 3, 191, 3, 191, 7, 191, 1747, 10, 191, 12, 191, 14, 191, 1750, 11, 191, 3, 191, 3, 191, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 5, 192, 1761, 10, 192, 3, 192, 3, 192, 5, 192, 1765, 10, 192, 7, 192, 1767, 10, 192, 12, 192, 14, 192, 1770, 11, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 5, 193, 1783, 10, 193, 3, 193, 3, 193, 5, 193, 1787, 10, 193, 7, 193, 1789, 10, 193, 12, 193, 14, 193, 1792, 11, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 194, 3, 194, 3, 194, 3, 195, 3, 195, 7, 195, 1803, 10, 195, 12, 195, 14, 195, 1806, 11, 195, 3, 195, 3, 195, 3, 196, 3, 196, 3, 196, 3, 196, 3, 197, 3, 197, 7, 197, 1816, 10, 197, 12, 197, 14, 197, 1819, 11, 197, 3, 197, 3, 197, 3, 198, 5, 198, 1824, 10, 198, 3, 199, 3, 199, 5, 199, 1828, 10, 199, 3, 200, 3, 200, 5, 200, 1832, 10, 200, 3, 200, 3, 200, 7, 200, 1836, 10, 200, 12, 200, 14, 200, 1839, 11, 200, 3, 201, 3, 201, 5, 201, 1843, 10, 201, 3, 202, 3, 202, 3, 202, 7, 202, 1848, 10, 202, 12, 202, 14, 202, 1851, 11, 202, 3, 202, 5, 202, 1854, 10, 202, 3, 203, 3, 203, 3, 203, 5, 203, 1859, 10, 203, 3, 203, 3, 203, 3, 203, 7, 203, 1864, 10, 203, 12, 203, 14, 203, 1867, 11, 203, 3, 203, 3, 203, 3, 203, 5, 203, 1872, 10, 203, 5, 203, 1874, 10, 203, 3, 204, 3, 204, 5, 204, 1878, 10, 204, 3, 205, 3, 205, 3, 205, 3, 205, 3, 206, 5, 206, 1885, 10, 206, 3, 207, 3, 207, 3, 207, 3, 208, 3, 208, 7, 208, 1892, 10, 208, 12, 208, 14, 208, 1895, 11, 208, 3, 208, 3, 208, 3, 209, 3, 209, 3, 210, 3, 210, 3, 211, 3, 211, 3, 212, 3, 212, 3, 213, 3, 213, 3, 214, 3, 214, 3, 215, 3, 215, 3, 216, 3, 216, 3, 217, 3, 217, 3, 218, 3, 218, 3, 219, 3, 219, 3, 220, 3, 220, 3, 221, 3, 221, 3, 222, 3, 222, 3, 223, 3, 223, 3, 224, 3, 224, 3, 225, 3, 225, 3, 226, 3, 226, 3, 227, 3, 227, 3, 228, 3, 228, 3, 229, 3, 229, 3, 230, 3, 230, 3, 231, 3, 231, 3, 232, 3, 232, 3, 233, 3, 233, 3, 234, 3, 234, 2, 2, 235, 3, 3, 5, 4, 7, 5, 9, 6, 11, 7, 13, 8, 15, 9, 17, 10, 19, 11, 21, 12, 23, 13, 25, 14, 27, 15, 29, 16, 31, 17, 33, 18, 35, 19, 37, 20, 39, 21, 41, 22, 43, 23, 45, 24, 47, 25, 49, 26, 51, 27, 53, 28, 55, 29, 57, 30, 59, 31, 61, 32, 63, 33, 65, 34, 67, 35, 69, 36, 71, 37, 73, 38, 75, 39, 77, 40, 79, 41, 81, 42, 83, 43, 85, 44, 87, 45, 89, 46, 91, 47, 93, 48, 95, 49, 97, 50, 99, 51, 101, 52, 103, 53, 105, 54, 107, 55, 109, 56, 111, 57, 113, 58, 115, 59, 117, 60, 119, 61, 121, 62, 123, 63, 125, 64, 127, 65, 129, 66, 131, 67, 133, 68, 135, 69, 137, 70, 139, 71, 141, 72, 143, 73, 145, 74, 147, 75, 149, 76, 151, 77, 153, 78, 155, 79, 157, 80, 159, 81, 161, 82, 163, 83, 165, 84, 167, 85, 169, 86, 171, 87, 173, 88, 175, 89, 177, 90, 179, 91, 181, 92, 183, 93, 185, 94, 187, 95, 189, 96, 191, 97, 193, 98, 195, 99, 197, 100, 199, 101, 201, 102, 203, 103, 205, 104, 207, 105, 209, 106, 211, 107, 213, 108, 215, 109, 217, 110, 219, 111, 221, 112, 223, 113, 225, 114, 227, 115, 229, 116, 231, 117, 233, 118, 235, 119, 237, 120, 239, 121, 241, 122, 243, 123, 245, 124, 247, 125, 249, 126, 251, 127, 253, 128, 255, 129, 257, 130, 259, 131, 261, 132, 263, 133, 265, 134, 267, 135, 269, 136, 271, 137, 273, 138, 275, 139, 277, 140, 279, 141, 281, 142, 283, 143, 285, 144, 287, 145, 289, 146, 291, 147, 293, 148, 295, 149, 297, 150, 299, 151, 301, 152, 303, 153, 305, 154, 307, 155, 309, 156, 311, 157, 313, 158, 315, 159, 317, 160, 319, 161, 321, 162, 323, 163, 325, 164, 327, 165, 329, 166, 331, 167, 333, 168, 335, 169, 337, 170, 339, 171, 341, 172, 343, 173, 345, 174, 347, 175, 349, 176, 351, 177, 353, 178, 355, 179, 357, 180, 359, 181, 361, 182, 363, 183, 365, 184, 367, 185, 369, 186, 371, 187, 373, 188, 375, 189, 377, 190, 379, 191, 381, 192, 383, 193, 385, 194, 387, 195, 389, 196, 391, 197, 393, 198, 395, 199, 397, 200, 399, 201, 401, 202, 403, 203, 405, 204, 407, 205, 409, 206, 411, 207, 413, 208, 415, 209, 417, 2, 419, 2, 421, 2, 423, 2, 425, 2, 427, 2, 429, 2, 431, 2, 433, 2, 435, 2, 437, 2, 439, 2, 441, 2, 443, 2, 445, 2, 447, 2, 449, 2, 451, 2, 453, 2, 455, 2, 457, 2, 459, 2, 461, 2, 463, 2, 465, 2, 467, 2, 3, 2, 45, 10, 2, 2, 34, 36, 36, 62, 62, 64, 64, 94, 94, 96, 96, 98, 98, 125, 127, 3, 2, 50, 59, 4, 2, 67, 92, 99, 124, 5, 2, 50, 59, 67, 92, 99, 124, 4, 2, 71, 71, 103, 103, 4, 2, 45, 45, 47, 47, 6, 2, 12, 12, 15, 15, 41, 41, 94, 94, 6, 2, 12, 12, 15, 15, 36, 36, 94, 94, 5, 2, 41, 41, 94, 94, 96, 96, 5, 2, 36, 36, 94, 94, 96, 96, 10, 2, 36, 36, 41, 41, 94, 94, 100, 100, 104, 104, 112, 112, 116, 116, 118, 118, 5, 2, 11, 12, 15, 15, 34, 34, 6, 2, 50, 59, 185, 185, 770, 881, 8257, 8258, 7, 2, 47, 47, 50, 59, 185, 185, 770, 881, 8257, 8258, 4, 2, 48, 48, 60, 60, 5, 2, 50, 59, 67, 72, 99, 104, 9, 2, 35, 35, 37, 49, 61, 61, 63, 63, 65, 66, 97, 97, 128, 128, 4, 2, 12, 12, 15, 15, 4, 2, 67, 67, 99, 99, 4, 2, 68, 68, 100, 100, 4, 2, 69, 69, 101, 101, 4, 2, 70, 70, 102, 102, 4, 2, 72, 72, 104, 104, 4, 2, 73, 73, 105, 105, 4, 2, 74, 74, 106, 106, 4, 2, 75, 75, 107, 107, 4, 2, 76, 76, 108, 108, 4, 2, 77, 77, 109, 109, 4, 2, 78, 78, 110, 110, 4, 2, 79, 79, 111, 111, 4, 2, 80, 80, 112, 112, 4, 2, 81, 81, 113, 113, 4, 2, 82, 82, 114, 114, 4, 2, 83, 83, 115, 115, 4, 2, 84, 84, 116, 116, 4, 2, 85, 85, 117, 117, 4, 2, 86, 86, 118, 118, 4, 2, 87, 87, 119, 119, 4, 2, 88, 88, 120, 120, 4, 2, 89, 89, 121, 121, 4, 2, 90, 90, 122, 122, 4, 2, 91, 91, 123, 123, 4, 2, 92, 92, 124, 124, 3, 16, 2, 67, 2, 92, 2, 99, 2, 124, 2, 194, 2, 216, 2, 218, 2, 248, 2, 250, 2, 769, 2, 882, 2, 895, 2, 897, 2, 8193, 2, 8206, 2, 8207, 2, 8306, 2, 8593, 2, 11266, 2, 12273, 2, 12291, 2, 55297, 2, 63746, 2, 64977, 2, 65010, 2, 65535, 2, 2, 3, 1, 16, 1975, 2, 3, 3, 2, 2, 2, 2, 5, 3, 2, 2, 2, 2, 7, 3, 2, 2, 2, 2, 9, 3, 2, 2, 2, 2, 11, 3, 2, 2, 2, 2, 13, 3, 2, 2, 2, 2, 15, 3, 2, 2, 2, 2, 17, 3, 2, 2, 2, 2, 19, 3, 2, 2, 2, 2, 21, 3, 2, 2, 2, 2, 23, 3, 2, 2, 2, 2, 25, 3, 2, 2, 2, 2, 27, 3, 2, 2, 2, 2, 29, 3, 2, 2, 2, 2, 31, 3, 2, 2, 2, 2, 33, 3, 2, 2, 2, 2, 35, 3, 2, 2, 2, 2, 37, 3, 2, 2, 2, 2, 39, 3, 2, 2, 2, 2, 41, 3, 2, 2, 2, 2, 43, 3, 2, 2, 2, 2, 45, 3, 2, 2, 2, 2, 47, 3, 2, 2, 2, 2, 49, 3, 2, 2, 2, 2, 51, 3, 2, 2, 2, 2, 53, 3, 2, 2, 2, 2, 55, 3, 2, 2, 2, 2, 57, 3, 2, 2, 2, 2, 59, 3, 2, 2, 2, 2, 61, 3, 2, 2, 2, 2, 63, 3, 2, 2, 2, 2, 65, 3, 2, 2, 2, 2, 67, 3, 2, 2, 2, 2, 69, 3, 2, 2, 2, 2, 71, 3, 2, 2, 2, 2, 73, 3, 2, 2, 2, 2, 75, 3, 2, 2, 2, 2, 77, 3, 2, 2, 2, 2, 79, 3, 2, 2, 2, 2, 81, 3, 2, 2, 2, 2, 83, 3, 2, 2, 2, 2, 85, 3, 2, 2, 2, 2, 87, 3, 2, 2, 2, 2, 89, 3, 2, 2, 2, 2, 91, 3, 2, 2, 2, 2, 93, 3, 2, 2, 2, 2, 95, 3, 2, 2, 2, 2, 97, 3, 2, 2, 2, 2, 99, 3, 2, 2, 2, 2, 101, 3, 2, 2, 2, 2, 103, 3, 2, 2, 2, 2, 105, 3, 2, 2, 2, 2, 107, 3, 2, 2, 2, 2, 109, 3, 2, 2, 2, 2, 111, 3, 2, 2, 2, 2, 113, 3, 2, 2, 2, 2, 115, 3, 2, 2, 2, 2, 117, 3, 2, 2, 2, 2, 119, 3, 2, 2, 2, 2, 121, 3, 2, 2, 2, 2, 123, 3, 2, 2, 2, 2, 125, 3, 2, 2, 2, 2, 127, 3, 2, 2, 2, 2, 129, 3, 2, 2, 2, 2, 131, 3, 2, 2, 2, 2, 133, 3, 2, 2, 2, 2, 135, 3, 2, 2, 2, 2, 137, 3, 2, 2, 2, 2, 139, 3, 2, 2, 2, 2, 141, 3, 2, 2, 2, 2, 143, 3, 2, 2, 2, 2, 145, 3, 2, 2, 2, 2, 147, 3, 2, 2, 2, 2, 149, 3, 2, 2, 2, 2, 151, 3, 2, 2, 2, 2, 153, 3, 2, 2, 2, 2, 155, 3, 2, 2, 2, 2, 157, 3, 2, 2, 2, 2, 159, 3, 2, 2, 2, 2, 161, 3, 2, 2, 2, 2, 163, 3, 2, 2, 2, 2, 165, 3, 2, 2, 2, 2, 167, 3, 2, 2, 2, 2, 169, 3, 2, 2, 2, 2, 171, 3, 2, 2, 2, 2, 173, 3, 2, 2, 2, 2, 175, 3, 2, 2, 2, 2, 177, 3, 2, 2, 2, 2, 179, 3, 2, 2, 2, 2, 181, 3, 2, 2, 2, 2, 183, 3, 2, 2, 2, 2, 185, 3, 2, 2, 2, 2, 187, 3, 2, 2, 2, 2, 189, 3, 2, 2, 2, 2, 191, 3, 2, 2, 2, 2, 193, 3, 2, 2, 2, 2, 195, 3, 2, 2, 2, 2, 197, 3, 2, 2, 2, 2, 199, 3, 2, 2, 2, 2, 201, 3, 2, 2, 2, 2, 203, 3, 2, 2, 2, 2, 205, 3, 2, 2, 2, 2, 207, 3, 2, 2, 2, 2, 209, 3, 2, 2, 2, 2, 211, 3, 2, 2, 2, 2, 213, 3, 2, 2, 2, 2, 215, 3, 2, 2, 2, 2, 217, 3, 2, 2, 2, 2, 219, 3, 2, 2, 2, 2, 221, 3, 2, 2, 2, 2, 223, 3, 2, 2, 2, 2, 225, 3, 2, 2, 2, 2, 227, 3, 2, 2, 2, 2, 229, 3, 2, 2, 2, 2, 231, 3, 2, 2, 2, 2, 233, 3, 2, 2, 2, 2, 235, 3, 2, 2, 2, 2, 237, 3, 2, 2, 2, 2, 239, 3, 2, 2, 2, 2, 241, 3, 2, 2, 2, 2, 243, 3, 2, 2, 2, 2, 245, 3, 2, 2, 2, 2, 247, 3, 2, 2, 2, 2, 249, 3, 2, 2, 2, 2, 251, 3, 2, 2, 2, 2, 253, 3, 2, 2, 2, 2, 255, 3, 2, 2, 2, 2, 257, 3, 2, 2, 2, 2, 259, 3, 2, 2, 2, 2, 261, 3, 2, 2, 2, 2, 263, 3, 2, 2, 2, 2, 265, 3, 2, 2, 2, 2, 267, 3, 2, 2, 2, 2, 269, 3, 2, 2, 2, 2, 271, 3, 2, 2, 2, 2, 273, 3, 2, 2, 2, 2, 275, 3, 2, 2, 2, 2, 277, 3, 2, 2, 2, 2, 279, 3, 2, 2, 2, 2, 281, 3, 2, 2, 2, 2, 283, 3, 2, 2, 2, 2, 285, 3, 2, 2, 2, 2, 287, 3, 2, 2, 2, 2, 289, 3, 2, 2, 2, 2, 291, 3, 2, 2, 2, 2, 293, 3, 2, 2, 2, 2, 295, 3, 2, 2, 2, 2, 297, 3, 2, 2, 2, 2, 299, 3, 2, 2, 2, 2, 301, 3, 2, 2, 2, 2, 303, 3, 2, 2, 2, 2, 305, 3, 2, 2, 2, 2, 307, 3, 2, 2, 2, 2, 309, 3, 2, 2, 2, 2, 311, 3, 2, 2, 2, 2, 313, 3, 2, 2, 2, 2, 315, 3, 2, 2, 2, 2, 317, 3, 2, 2, 2, 2, 319, 3, 2, 2, 2, 2, 321, 3, 2, 2, 2, 2, 323, 3, 2, 2, 2, 2, 325, 3, 2, 2, 2, 2, 327, 3, 2, 2, 2, 2, 329, 3, 2, 2, 2, 2, 331, 3, 2, 2, 2, 2, 333, 3, 2, 2, 2, 2, 335, 3, 2, 2, 2, 2, 337, 3, 2, 2, 2, 2, 339, 3, 2, 2, 2, 2, 341, 3, 2, 2, 2, 2, 343, 3, 2, 2, 2, 2, 345, 3, 2, 2, 2, 2, 347, 3, 2, 2, 2, 2, 349, 3, 2, 2, 2, 2, 351, 3, 2, 2, 2, 2, 353, 3, 2, 2, 2, 2, 355, 3, 2, 2, 2, 2, 357, 3, 2, 2, 2, 2, 359, 3, 2, 2, 2, 2, 361, 3, 2, 2, 2, 2, 363, 3, 2, 2, 2, 2, 365, 3, 2, 2, 2, 2, 367, 3, 2, 2, 2, 2, 369, 3, 2, 2, 2, 2, 371, 3, 2, 2, 2, 2, 373, 3, 2, 2, 2, 2, 375, 3, 2, 2, 2, 2, 377, 3, 2, 2, 2, 2, 379, 3, 2, 2, 2, 2, 381, 3, 2, 2, 2, 2, 383, 3, 2, 2, 2, 2, 385, 3, 2, 2, 2, 2, 387, 3, 2, 2, 2, 2, 389, 3, 2, 2, 2, 2, 391, 3, 2, 2, 2, 2, 393, 3, 2, 2, 2, 2, 395, 3, 2, 2, 2, 2, 397, 3, 2, 2, 2, 2, 399, 3, 2, 2, 2, 2, 401, 3, 2, 2, 2, 2, 403, 3, 2, 2, 2, 2, 405, 3, 2, 2, 2, 2, 407, 3, 2, 2, 2, 2, 409, 3, 2, 2, 2, 2, 411, 3, 2, 2, 2, 2, 413, 3, 2, 2, 2, 2, 415, 3, 2, 2, 2, 3, 469, 3, 2, 2, 2, 5, 471, 3, 2, 2, 2, 7, 473, 3, 2, 2, 2, 9, 475, 3, 2, 2, 2, 11, 477, 3, 2, 2, 2, 13, 479, 3, 2, 2, 2, 15, 481, 3, 2, 2, 2, 17, 483, 3, 2, 2, 2, 19, 485, 3, 2, 2, 2, 21, 487, 3, 2, 2, 2, 23, 489, 3, 2, 2, 2, 25, 491, 3, 2, 2, 2, 27, 493, 3, 2, 2, 2, 29, 495, 3, 2, 2, 2, 31, 497, 3, 2, 2, 2, 33, 499, 3, 2, 2, 2, 35, 501, 3, 2, 2, 2, 37, 503, 3, 2, 2, 2, 39, 506, 3, 2, 2, 2, 41, 509, 3, 2, 2, 2, 43, 511, 3, 2, 2, 2, 45, 514, 3, 2, 2, 2, 47, 516, 3, 2, 2, 2, 49, 518, 3, 2, 2, 2, 51, 521, 3, 2, 2, 2, 53, 524, 3, 2, 2, 2, 55, 526, 3, 2, 2, 2, 57, 529, 3, 2, 2, 2, 59, 534, 3, 2, 2, 2, 61, 540, 3, 2, 2, 2, 63, 544, 3, 2, 2, 2, 65, 549, 3, 2, 2, 2, 67, 555, 3, 2, 2, 2, 69, 558, 3, 2, 2, 2, 71, 562, 3, 2, 2, 2, 73, 566, 3, 2, 2, 2, 75, 573, 3, 2, 2, 2, 77, 576, 3, 2, 2, 2, 79, 582, 3, 2, 2, 2, 81, 589, 3, 2, 2, 2, 83, 595, 3, 2, 2, 2, 85, 603, 3, 2, 2, 2, 87, 610, 3, 2, 2, 2, 89, 616, 3, 2, 2, 2, 91, 619, 3, 2, 2, 2, 93, 624, 3, 2, 2, 2, 95, 629, 3, 2, 2, 2, 97, 635, 3, 2, 2, 2, 99, 644, 3, 2, 2, 2, 101, 654, 3, 2, 2, 2, 103, 662, 3, 2, 2, 2, 105, 672, 3, 2, 2, 2, 107, 676, 3, 2, 2, 2, 109, 682, 3, 2, 2, 2, 111, 688, 3, 2, 2, 2, 113, 697, 3, 2, 2, 2, 115, 701, 3, 2, 2, 2, 117, 709, 3, 2, 2, 2, 119, 714, 3, 2, 2, 2, 121, 719, 3, 2, 2, 2, 123, 725, 3, 2, 2, 2, 125, 730, 3, 2, 2, 2, 127, 733, 3, 2, 2, 2, 129, 737, 3, 2, 2, 2, 131, 741, 3, 2, 2, 2, 133, 746, 3, 2, 2, 2, 135, 749, 3, 2, 2, 2, 137, 754, 3, 2, 2, 2, 139, 759, 3, 2, 2, 2, 141, 764, 3, 2, 2, 2, 143, 770, 3, 2, 2, 2, 145, 776, 3, 2, 2, 2, 147, 780, 3, 2, 2, 2, 149, 787, 3, 2, 2, 2, 151, 793, 3, 2, 2, 2, 153, 801, 3, 2, 2, 2, 155, 807, 3, 2, 2, 2, 157, 816, 3, 2, 2, 2, 159, 826, 3, 2, 2, 2, 161, 830, 3, 2, 2, 2, 163, 835, 3, 2, 2, 2, 165, 842, 3, 2, 2, 2, 167, 851, 3, 2, 2, 2, 169, 861, 3, 2, 2, 2, 171, 865, 3, 2, 2, 2, 173, 875, 3, 2, 2, 2, 175, 884, 3, 2, 2, 2, 177, 891, 3, 2, 2, 2, 179, 896, 3, 2, 2, 2, 181, 903, 3, 2, 2, 2, 183, 908, 3, 2, 2, 2, 185, 912, 3, 2, 2, 2, 187, 919, 3, 2, 2, 2, 189, 925, 3, 2, 2, 2, 191, 929, 3, 2, 2, 2, 193, 937, 3, 2, 2, 2, 195, 944, 3, 2, 2, 2, 197, 953, 3, 2, 2, 2, 199, 960, 3, 2, 2, 2, 201, 968, 3, 2, 2, 2, 203, 976, 3, 2, 2, 2, 205, 982, 3, 2, 2, 2, 207, 989, 3, 2, 2, 2, 209, 999, 3, 2, 2, 2, 211, 1003, 3, 2, 2, 2, 213, 1010, 3, 2, 2, 2, 215, 1018, 3, 2, 2, 2, 217, 1024, 3, 2, 2, 2, 219, 1030, 3, 2, 2, 2, 221, 1036, 3, 2, 2, 2, 223, 1044, 3, 2, 2, 2, 225, 1048, 3, 2, 2, 2, 227, 1057, 3, 2, 2, 2, 229, 1064, 3, 2, 2, 2, 231, 1070, 3, 2, 2, 2, 233, 1074, 3, 2, 2, 2, 235, 1082, 3, 2, 2, 2, 237, 1087, 3, 2, 2, 2, 239, 1099, 3, 2, 2, 2, 241, 1105, 3, 2, 2, 2, 243, 1108, 3, 2, 2, 2, 245, 1114, 3, 2, 2, 2, 247, 1119, 3, 2, 2, 2, 249, 1125, 3, 2, 2, 2, 251, 1131, 3, 2, 2, 2, 253, 1140, 3, 2, 2, 2, 255, 1147, 3, 2, 2, 2, 257, 1153, 3, 2, 2, 2, 259, 1162, 3, 2, 2, 2, 261, 1168, 3, 2, 2, 2, 263, 1175, 3, 2, 2, 2, 265, 1191, 3, 2, 2, 2, 267, 1210, 3, 2, 2, 2, 269, 1220, 3, 2, 2, 2, 271, 1233, 3, 2, 2, 2, 273, 1246, 3, 2, 2, 2, 275, 1262, 3, 2, 2, 2, 277, 1276, 3, 2, 2, 2, 279, 1290, 3, 2, 2, 2, 281, 1308, 3, 2, 2, 2, 283, 1312, 3, 2, 2, 2, 285, 1329, 3, 2, 2, 2, 287, 1349, 3, 2, 2, 2, 289, 1358, 3, 2, 2, 2, 291, 1361, 3, 2, 2, 2, 293, 1367, 3, 2, 2, 2, 295, 1375, 3, 2, 2, 2, 297, 1379, 3, 2, 2, 2, 299, 1384, 3, 2, 2, 2, 301, 1392, 3, 2, 2, 2, 303, 1402, 3, 2, 2, 2, 305, 1406, 3, 2, 2, 2, 307, 1419, 3, 2, 2, 2, 309, 1432, 3, 2, 2, 2, 311, 1442, 3, 2, 2, 2, 313, 1446, 3, 2, 2, 2, 315, 1456, 3, 2, 2, 2, 317, 1469, 3, 2, 2, 2, 319, 1487, 3, 2, 2, 2, 321, 1495, 3, 2, 2, 2, 323, 1500, 3, 2, 2, 2, 325, 1509, 3, 2, 2, 2, 327, 1521, 3, 2, 2, 2, 329, 1533, 3, 2, 2, 2, 331, 1546, 3, 2, 2, 2, 333, 1561, 3, 2, 2, 2, 335, 1565, 3, 2, 2, 2, 337, 1570, 3, 2, 2, 2, 339, 1577, 3, 2, 2, 2, 341, 1584, 3, 2, 2, 2, 343, 1591, 3, 2, 2, 2, 345, 1604, 3, 2, 2, 2, 347, 1614, 3, 2, 2, 2, 349, 1618, 3, 2, 2, 2, 351, 1621, 3, 2, 2, 2, 353, 1638, 3, 2, 2, 2, 355, 1641, 3, 2, 2, 2, 357, 1644, 3, 2, 2, 2, 359, 1662, 3, 2, 2, 2, 361, 1669, 3, 2, 2, 2, 363, 1704, 3, 2, 2, 2, 365, 1706, 3, 2, 2, 2, 367, 1709, 3, 2, 2, 2, 369, 1712, 3, 2, 2, 2, 371, 1715, 3, 2, 2, 2, 373, 1718, 3, 2, 2, 2, 375, 1721, 3, 2, 2, 2, 377, 1724, 3, 2, 2, 2, 379, 1733, 3, 2, 2, 2, 381, 1743, 3, 2, 2, 2, 383, 1753, 3, 2, 2, 2, 385, 1775, 3, 2, 2, 2, 387, 1797, 3, 2, 2, 2, 389, 1800, 3, 2, 2, 2, 391, 1809, 3, 2, 2, 2, 393, 1813, 3, 2, 2, 2, 395, 1823, 3, 2, 2, 2, 397, 1827, 3, 2, 2, 2, 399, 1831, 3, 2, 2, 2, 401, 1842, 3, 2, 2, 2, 403, 1844, 3, 2, 2, 2, 405, 1858, 3, 2, 2, 2, 407, 1877, 3, 2, 2, 2, 409, 1879, 3, 2, 2, 2, 411, 1884, 3, 2, 2, 2, 413, 1886, 3, 2, 2, 2, 415, 1889, 3, 2, 2, 2, 417, 1898, 3, 2, 2, 2, 419, 1900, 3, 2, 2, 2, 421, 1902, 3, 2, 2, 2, 423, 1904, 3, 2, 2, 2, 425, 1906, 3, 2, 2, 2, 427, 1908, 3, 2, 2, 2, 429, 1910, 3, 2, 2, 2, 431, 1912, 3, 2, 2, 2, 433, 1914, 3, 2, 2, 2, 435, 1916, 3, 2, 2, 2, 437, 1918, 3, 2, 2, 2, 439, 1920, 3, 2, 2, 2, 441, 1922, 3, 2, 2, 2, 443, 1924, 3, 2, 2, 2, 445, 1926, 3, 2, 2, 2, 447, 1928, 3, 2, 2, 2, 449, 1930, 3, 2, 2, 2, 451, 1932, 3, 2, 2, 2, 453, 1934, 3, 2, 2, 2, 455, 1936, 3, 2, 2, 2, 457, 1938, 3, 2, 2, 2, 459, 1940, 3, 2, 2, 2, 461, 1942, 3, 2, 2, 2, 463, 1944, 3, 2, 2, 2, 465, 1946, 3, 2, 2, 2, 467, 1948, 3, 2, 2, 2, 469, 470, 7, 44, 2, 2, 470, 4, 3, 2, 2, 2, 471, 472, 7, 42, 2, 2, 472, 6, 3, 2, 2, 2, 473, 474, 7, 43, 2, 2, 474, 8, 3, 2, 2, 2, 475, 476, 7, 125, 2, 2, 476, 10, 3, 2, 2, 2, 477, 478, 7, 127, 2, 2, 478, 12, 3, 2, 2, 2, 479, 480, 7, 61, 2, 2, 480, 14, 3, 2, 2, 2, 481, 482, 7, 48, 2, 2, 482, 16, 3, 2, 2, 2, 483, 484, 7, 46, 2, 2, 484, 18, 3, 2, 2, 2, 485, 486, 7, 99, 2, 2, 486, 20, 3, 2, 2, 2, 487, 488, 7, 126, 2, 2, 488, 22, 3, 2, 2, 2, 489, 490, 7, 49, 2, 2, 490, 24, 3, 2, 2, 2, 491, 492, 7, 96, 2, 2, 492, 26, 3, 2, 2, 2, 493, 494, 7, 65, 2, 2, 494, 28, 3, 2, 2, 2, 495, 496, 7, 45, 2, 2, 496, 30, 3, 2, 2, 2, 497, 498, 7, 35, 2, 2, 498, 32, 3, 2, 2, 2, 499, 500, 7, 93, 2, 2, 500, 34, 3, 2, 2, 2, 501, 502, 7, 95, 2, 2, 502, 36, 3, 2, 2, 2, 503, 504, 7, 126, 2, 2, 504, 505, 7, 126, 2, 2, 505, 38, 3, 2, 2, 2, 506, 507, 7, 40, 2, 2, 507, 508, 7, 40, 2, 2, 508, 40, 3, 2, 2, 2, 509, 510, 7, 63, 2, 2, 510, 42, 3, 2, 2, 2, 511, 512, 7, 35, 2, 2, 512, 513, 7, 63, 2, 2, 513, 44, 3, 2, 2, 2, 514, 515, 7, 62, 2, 2, 515, 46, 3, 2, 2, 2, 516, 517, 7, 64, 2, 2, 517, 48, 3, 2, 2, 2, 518, 519, 7, 62, 2, 2, 519, 520, 7, 63, 2, 2, 520, 50, 3, 2, 2, 2, 521, 522, 7, 64, 2, 2, 522, 523, 7, 63, 2, 2, 523, 52, 3, 2, 2, 2, 524, 525, 7, 47, 2, 2, 525, 54, 3, 2, 2, 2, 526, 527, 7, 96, 2, 2, 527, 528, 7, 96, 2, 2, 528, 56, 3, 2, 2, 2, 529, 530, 7, 118, 2, 2, 530, 531, 7, 116, 2, 2, 531, 532, 7, 119, 2, 2, 532, 533, 7, 103, 2, 2, 533, 58, 3, 2, 2, 2, 534, 535, 7, 104, 2, 2, 535, 536, 7, 99, 2, 2, 536, 537, 7, 110, 2, 2, 537, 538, 7, 117, 2, 2, 538, 539, 7, 103, 2, 2, 539, 60, 3, 2, 2, 2, 540, 541, 5, 443, 222, 2, 541, 542, 5, 445, 223, 2, 542, 543, 5, 461, 231, 2, 543, 62, 3, 2, 2, 2, 544, 545, 5, 465, 233, 2, 545, 546, 5, 425, 213, 2, 546, 547, 5, 417, 209, 2, 547, 548, 5, 451, 226, 2, 548, 64, 3, 2, 2, 2, 549, 550, 5, 457, 229, 2, 550, 551, 5, 443, 222, 2, 551, 552, 5, 433, 217, 2, 552, 553, 5, 445, 223, 2, 553, 554, 5, 443, 222, 2, 554, 66, 3, 2, 2, 2, 555, 556, 5, 433, 217, 2, 556, 557, 5, 427, 214, 2, 557, 68, 3, 2, 2, 2, 558, 559, 5, 417, 209, 2, 559, 560, 5, 453, 227, 2, 560, 561, 5, 437, 219, 2, 561, 70, 3, 2, 2, 2, 562, 563, 5, 417, 209, 2, 563, 564, 5, 453, 227, 2, 564, 565, 5, 421, 211, 2, 565, 72, 3, 2, 2, 2, 566, 567, 5, 421, 211, 2, 567, 568, 5, 445, 223, 2, 568, 569, 5, 443, 222, 2, 569, 570, 5, 421, 211, 2, 570, 571, 5, 417, 209, 2, 571, 572, 5, 455, 228, 2, 572, 74, 3, 2, 2, 2, 573, 574, 5, 433, 217, 2, 574, 575, 5, 443, 222, 2, 575, 76, 3, 2, 2, 2, 576, 577, 5, 457, 229, 2, 577, 578, 5, 443, 222, 2, 578, 579, 5, 423, 212, 2, 579, 580, 5, 425, 213, 2, 580, 581, 5, 427, 214, 2, 581, 78, 3, 2, 2, 2, 582, 583, 5, 433, 217, 2, 583, 584, 5, 443, 222, 2, 584, 585, 5, 453, 227, 2, 585, 586, 5, 425, 213, 2, 586, 587, 5, 451, 226, 2, 587, 588, 5, 455, 228, 2, 588, 80, 3, 2, 2, 2, 589, 590, 5, 441, 221, 2, 590, 591, 5, 445, 223, 2, 591, 592, 5, 443, 222, 2, 592, 593, 5, 455, 228, 2, 593, 594, 5, 431, 216, 2, 594, 82, 3, 2, 2, 2, 595, 596, 5, 423, 212, 2, 596, 597, 5, 425, 213, 2, 597, 598, 5, 427, 214, 2, 598, 599, 5, 417, 209, 2, 599, 600, 5, 457, 229, 2, 600, 601, 5, 439, 220, 2, 601, 602, 5, 455, 228, 2, 602, 84, 3, 2, 2, 2, 603, 604, 5, 453, 227, 2, 604, 605, 5, 425, 213, 2, 605, 606, 5, 439, 220, 2, 606, 607, 5, 425, 213, 2, 607, 608, 5, 421, 211, 2, 608, 609, 5, 455, 228, 2, 609, 86, 3, 2, 2, 2, 610, 611, 5, 427, 214, 2, 611, 612, 5, 439, 220, 2, 612, 613, 5, 445, 223, 2, 613, 614, 5, 445, 223, 2, 614, 615, 5, 451, 226, 2, 615, 88, 3, 2, 2, 2, 616, 617, 5, 455, 228, 2, 617, 618, 5, 467, 234, 2, 618, 90, 3, 2, 2, 2, 619, 620, 5, 421, 211, 2, 620, 621, 5, 445, 223, 2, 621, 622, 5, 447, 224, 2, 622, 623, 5, 465, 233, 2, 623, 92, 3, 2, 2, 2, 624, 625, 5, 421, 211, 2, 625, 626, 5, 425, 213, 2, 626, 627, 5, 433, 217, 2, 627, 628, 5, 439, 220, 2, 628, 94, 3, 2, 2, 2, 629, 630, 5, 431, 216, 2, 630, 631, 5, 445, 223, 2, 631, 632, 5, 457, 229, 2, 632, 633, 5, 451, 226, 2, 633, 634, 5, 453, 227, 2, 634, 96, 3, 2, 2, 2, 635, 636, 5, 423, 212, 2, 636, 637, 5, 417, 209, 2, 637, 638, 5, 455, 228, 2, 638, 639, 5, 417, 209, 2, 639, 640, 5, 455, 228, 2, 640, 641, 5, 465, 233, 2, 641, 642, 5, 447, 224, 2, 642, 643, 5, 425, 213, 2, 643, 98, 3, 2, 2, 2, 644, 645, 5, 433, 217, 2, 645, 646, 5, 453, 227, 2, 646, 647, 5, 443, 222, 2, 647, 648, 5, 457, 229, 2, 648, 649, 5, 441, 221, 2, 649, 650, 5, 425, 213, 2, 650, 651, 5, 451, 226, 2, 651, 652, 5, 433, 217, 2, 652, 653, 5, 421, 211, 2, 653, 100, 3, 2, 2, 2, 654, 655, 5, 453, 227, 2, 655, 656, 5, 455, 228, 2, 656, 657, 5, 451, 226, 2, 657, 658, 5, 457, 229, 2, 658, 659, 5, 457, 229, 2, 659, 660, 5, 433, 217, 2, 660, 661, 5, 423, 212, 2, 661, 102, 3, 2, 2, 2, 662, 663, 5, 421, 211, 2, 663, 664, 5, 445, 223, 2, 664, 665, 5, 443, 222, 2, 665, 666, 5, 453, 227, 2, 666, 667, 5, 455, 228, 2, 667, 668, 5, 451, 226, 2, 668, 669, 5, 457, 229, 2, 669, 670, 5, 421, 211, 2, 670, 671, 5, 455, 228, 2, 671, 104, 3, 2, 2, 2, 672, 673, 5, 417, 209, 2, 673, 674, 5, 423, 212, 2, 674, 675, 5, 423, 212, 2, 675, 106, 3, 2, 2, 2, 676, 677, 5, 419, 210, 2, 677, 678, 5, 445, 223, 2, 678, 679, 5, 457, 229, 2, 679, 680, 5, 443, 222, 2, 680, 681, 5, 423, 212, 2, 681, 108, 3, 2, 2, 2, 682, 683, 5, 443, 222, 2, 683, 684, 5, 417, 209, 2, 684, 685, 5, 441, 221, 2, 685, 686, 5, 425, 213, 2, 686, 687, 5, 423, 212, 2, 687, 110, 3, 2, 2, 2, 688, 689, 5, 455, 228, 2, 689, 690, 5, 433, 217, 2, 690, 691, 5, 441, 221, 2, 691, 692, 5, 425, 213, 2, 692, 693, 5, 467, 234, 2, 693, 694, 5, 445, 223, 2, 694, 695, 5, 443, 222, 2, 695, 696, 5, 425, 213, 2, 696, 112, 3, 2, 2, 2, 697, 698, 5, 441, 221, 2, 698, 699, 5, 433, 217, 2, 699, 700, 5, 443, 222, 2, 700, 114, 3, 2, 2, 2, 701, 702, 5, 433, 217, 2, 702, 703, 5, 453, 227, 2, 703, 704, 5, 419, 210, 2, 704, 705, 5, 439, 220, 2, 705, 706, 5, 417, 209, 2, 706, 707, 5, 443, 222, 2, 707, 708, 5, 437, 219, 2, 708, 116, 3, 2, 2, 2, 709, 710, 5, 457, 229, 2, 710, 711, 5, 457, 229, 2, 711, 712, 5, 433, 217, 2, 712, 713, 5, 423, 212, 2, 713, 118, 3, 2, 2, 2, 714, 715, 5, 419, 210, 2, 715, 716, 5, 433, 217, 2, 716, 717, 5, 443, 222, 2, 717, 718, 5, 423, 212, 2, 718, 120, 3, 2, 2, 2, 719, 720, 5, 421, 211, 2, 720, 721, 5, 439, 220, 2, 721, 722, 5, 425, 213, 2, 722, 723, 5, 417, 209, 2, 723, 724, 5, 451, 226, 2, 724, 122, 3, 2, 2, 2, 725, 726, 5, 433, 217, 2, 726, 727, 5, 443, 222, 2, 727, 728, 5, 455, 228, 2, 728, 729, 5, 445, 223, 2, 729, 124, 3, 2, 2, 2, 730, 731, 5, 417, 209, 2, 731, 732, 5, 453, 227, 2, 732, 126, 3, 2, 2, 2, 733, 734, 5, 417, 209, 2, 734, 735, 5, 439, 220, 2, 735, 736, 5, 439, 220, 2, 736, 128, 3, 2, 2, 2, 737, 738, 5, 433, 217, 2, 738, 739, 5, 451, 226, 2, 739, 740, 5, 433, 217, 2, 740, 130, 3, 2, 2, 2, 741, 742, 5, 419, 210, 2, 742, 743, 5, 417, 209, 2, 743, 744, 5, 453, 227, 2, 744, 745, 5, 425, 213, 2, 745, 132, 3, 2, 2, 2, 746, 747, 5, 419, 210, 2, 747, 748, 5, 465, 233, 2, 748, 134, 3, 2, 2, 2, 749, 750, 5, 423, 212, 2, 750, 751, 5, 451, 226, 2, 751, 752, 5, 445, 223, 2, 752, 753, 5, 447, 224, 2, 753, 136, 3, 2, 2, 2, 754, 755, 5, 439, 220, 2, 755, 756, 5, 445, 223, 2, 756, 757, 5, 417, 209, 2, 757, 758, 5, 423, 212, 2, 758, 138, 3, 2, 2, 2, 759, 760, 5, 461, 231, 2, 760, 761, 5, 433, 217, 2, 761, 762, 5, 455, 228, 2, 762, 763, 5, 431, 216, 2, 763, 140, 3, 2, 2, 2, 764, 765, 5, 419, 210, 2, 765, 766, 5, 443, 222, 2, 766, 767, 5, 445, 223, 2, 767, 768, 5, 423, 212, 2, 768, 769, 5, 425, 213, 2, 769, 142, 3, 2, 2, 2, 770, 771, 5, 461, 231, 2, 771, 772, 5, 431, 216, 2, 772, 773, 5, 425, 213, 2, 773, 774, 5, 451, 226, 2, 774, 775, 5, 425, 213, 2, 775, 144, 3, 2, 2, 2, 776, 777, 5, 417, 209, 2, 777, 778, 5, 459, 230, 2, 778, 779, 5, 429, 215, 2, 779, 146, 3, 2, 2, 2, 780, 781, 5, 453, 227, 2, 781, 782, 5, 417, 209, 2, 782, 783, 5, 441, 221, 2, 783, 784, 5, 447, 224, 2, 784, 785, 5, 439, 220, 2, 785, 786, 5, 425, 213, 2, 786, 148, 3, 2, 2, 2, 787, 788, 5, 457, 229, 2, 788, 789, 5, 421, 211, 2, 789, 790, 5, 417, 209, 2, 790, 791, 5, 453, 227, 2, 791, 792, 5, 425, 213, 2, 792, 150, 3, 2, 2, 2, 793, 794, 5, 453, 227, 2, 794, 795, 5, 425, 213, 2, 795, 796, 5, 451, 226, 2, 796, 797, 5, 459, 230, 2, 797, 798, 5, 433, 217, 2, 798, 799, 5, 421, 211, 2, 799, 800, 5, 425, 213, 2, 800, 152, 3, 2, 2, 2, 801, 802, 5, 441, 221, 2, 802, 803, 5, 433, 217, 2, 803, 804, 5, 443, 222, 2, 804, 805, 5, 457, 229, 2, 805, 806, 5, 453, 227, 2, 806, 154, 3, 2, 2, 2, 807, 808, 5, 453, 227, 2, 808, 809, 5, 417, 209, 2, 809, 810, 5, 441, 221, 2, 810, 811, 5, 425, 213, 2, 811, 812, 5, 455, 228, 2, 812, 813, 5, 425, 213, 2, 813, 814, 5, 451, 226, 2, 814, 815, 5, 441, 221, 2, 815, 156, 3, 2, 2, 2, 816, 817, 5, 453, 227, 2, 817, 818, 5, 455, 228, 2, 818, 819, 5, 451, 226, 2, 819, 820, 5, 453, 227, 2, 820, 821, 5, 455, 228, 2, 821, 822, 5, 417, 209, 2, 822, 823, 5, 451, 226, 2, 823, 824, 5, 455, 228, 2, 824, 825, 5, 453, 227, 2, 825, 158, 3, 2, 2, 2, 826, 827, 5, 453, 227, 2, 827, 828, 5, 455, 228, 2, 828, 829, 5, 451, 226, 2, 829, 160, 3, 2, 2, 2, 830, 831, 5, 441, 221, 2, 831, 832, 5, 445, 223, 2, 832, 833, 5, 459, 230, 2, 833, 834, 5, 425, 213, 2, 834, 162, 3, 2, 2, 2, 835, 836, 5, 431, 216, 2, 836, 837, 5, 417, 209, 2, 837, 838, 5, 459, 230, 2, 838, 839, 5, 433, 217, 2, 839, 840, 5, 443, 222, 2, 840, 841, 5, 429, 215, 2, 841, 164, 3, 2, 2, 2, 842, 843, 5, 421, 211, 2, 843, 844, 5, 445, 223, 2, 844, 845, 5, 417, 209, 2, 845, 846, 5, 439, 220, 2, 846, 847, 5, 425, 213, 2, 847, 848, 5, 453, 227, 2, 848, 849, 5, 421, 211, 2, 849, 850, 5, 425, 213, 2, 850, 166, 3, 2, 2, 2, 851, 852, 5, 453, 227, 2, 852, 853, 5, 455, 228, 2, 853, 854, 5, 451, 226, 2, 854, 855, 5, 419, 210, 2, 855, 856, 5, 425, 213, 2, 856, 857, 5, 427, 214, 2, 857, 858, 5, 445, 223, 2, 858, 859, 5, 451, 226, 2, 859, 860, 5, 425, 213, 2, 860, 168, 3, 2, 2, 2, 861, 862, 5, 417, 209, 2, 862, 863, 5, 419, 210, 2, 863, 864, 5, 453, 227, 2, 864, 170, 3, 2, 2, 2, 865, 866, 5, 433, 217, 2, 866, 867, 5, 453, 227, 2, 867, 868, 5, 439, 220, 2, 868, 869, 5, 433, 217, 2, 869, 870, 5, 455, 228, 2, 870, 871, 5, 425, 213, 2, 871, 872, 5, 451, 226, 2, 872, 873, 5, 417, 209, 2, 873, 874, 5, 439, 220, 2, 874, 172, 3, 2, 2, 2, 875, 876, 5, 453, 227, 2, 876, 877, 5, 455, 228, 2, 877, 878, 5, 451, 226, 2, 878, 879, 5, 417, 209, 2, 879, 880, 5, 427, 214, 2, 880, 881, 5, 455, 228, 2, 881, 882, 5, 425, 213, 2, 882, 883, 5, 451, 226, 2, 883, 174, 3, 2, 2, 2, 884, 885, 5, 453, 227, 2, 885, 886, 5, 455, 228, 2, 886, 887, 5, 451, 226, 2, 887, 888, 5, 439, 220, 2, 888, 889, 5, 425, 213, 2, 889, 890, 5, 443, 222, 2, 890, 176, 3, 2, 2, 2, 891, 892, 5, 439, 220, 2, 892, 893, 5, 417, 209, 2, 893, 894, 5, 443, 222, 2, 894, 895, 5, 429, 215, 2, 895, 178, 3, 2, 2, 2, 896, 897, 5, 421, 211, 2, 897, 898, 5, 451, 226, 2, 898, 899, 5, 425, 213, 2, 899, 900, 5, 417, 209, 2, 900, 901, 5, 455, 228, 2, 901, 902, 5, 425, 213, 2, 902, 180, 3, 2, 2, 2, 903, 904, 5, 423, 212, 2, 904, 905, 5, 425, 213, 2, 905, 906, 5, 453, 227, 2, 906, 907, 5, 421, 211, 2, 907, 182, 3, 2, 2, 2, 908, 909, 5, 441, 221, 2, 909, 910, 5, 417, 209, 2, 910, 911, 5, 463, 232, 2, 911, 184, 3, 2, 2, 2, 912, 913, 5, 427, 214, 2, 913, 914, 5, 433, 217, 2, 914, 915, 5, 439, 220, 2, 915, 916, 5, 455, 228, 2, 916, 917, 5, 425, 213, 2, 917, 918, 5, 451, 226, 2, 918, 186, 3, 2, 2, 2, 919, 920, 5, 457, 229, 2, 920, 921, 5, 453, 227, 2, 921, 922, 5, 433, 217, 2, 922, 923, 5, 443, 222, 2, 923, 924, 5, 429, 215, 2, 924, 188, 3, 2, 2, 2, 925, 926, 5, 443, 222, 2, 926, 927, 5, 445, 223, 2, 927, 928, 5, 455, 228, 2, 928, 190, 3, 2, 2, 2, 929, 930, 5, 453, 227, 2, 930, 931, 5, 455, 228, 2, 931, 932, 5, 451, 226, 2, 932, 933, 5, 425, 213, 2, 933, 934, 5, 443, 222, 2, 934, 935, 5, 423, 212, 2, 935, 936, 5, 453, 227, 2, 936, 192, 3, 2, 2, 2, 937, 938, 5, 445, 223, 2, 938, 939, 5, 427, 214, 2, 939, 940, 5, 427, 214, 2, 940, 941, 5, 453, 227, 2, 941, 942, 5, 425, 213, 2, 942, 943, 5, 455, 228, 2, 943, 194, 3, 2, 2, 2, 944, 945, 5, 421, 211, 2, 945, 946, 5, 445, 223, 2, 946, 947, 5, 443, 222, 2, 947, 948, 5, 455, 228, 2, 948, 949, 5, 417, 209, 2, 949, 950, 5, 433, 217, 2, 950, 951, 5, 443, 222, 2, 951, 952, 5, 453, 227, 2, 952, 196, 3, 2, 2, 2, 953, 954, 5, 447, 224, 2, 954, 955, 5, 451, 226, 2, 955, 956, 5, 425, 213, 2, 956, 957, 5, 427, 214, 2, 957, 958, 5, 433, 217, 2, 958, 959, 5, 463, 232, 2, 959, 198, 3, 2, 2, 2, 960, 961, 5, 441, 221, 2, 961, 962, 5, 433, 217, 2, 962, 963, 5, 443, 222, 2, 963, 964, 5, 457, 229, 2, 964, 965, 5, 455, 228, 2, 965, 966, 5, 425, 213, 2, 966, 967, 5, 453, 227, 2, 967, 200, 3, 2, 2, 2, 968, 969, 5, 451, 226, 2, 969, 970, 5, 425, 213, 2, 970, 971, 5, 447, 224, 2, 971, 972, 5, 439, 220, 2, 972, 973, 5, 417, 209, 2, 973, 974, 5, 421, 211, 2, 974, 975, 5, 425, 213, 2, 975, 202, 3, 2, 2, 2, 976, 977, 5, 451, 226, 2, 977, 978, 5, 425, 213, 2, 978, 979, 5, 429, 215, 2, 979, 980, 5, 425, 213, 2, 980, 981, 5, 463, 232, 2, 981, 204, 3, 2, 2, 2, 982, 983, 5, 423, 212, 2, 983, 984, 5, 425, 213, 2, 984, 985, 5, 439, 220, 2, 985, 986, 5, 425, 213, 2, 986, 987, 5, 455, 228, 2, 987, 988, 5, 425, 213, 2, 988, 206, 3, 2, 2, 2, 989, 990, 5, 453, 227, 2, 990, 991, 5, 425, 213, 2, 991, 992, 5, 447, 224, 2, 992, 993, 5, 417, 209, 2, 993, 994, 5, 451, 226, 2, 994, 995, 5, 417, 209, 2, 995, 996, 5, 455, 228, 2, 996, 997, 5, 445, 223, 2, 997, 998, 5, 451, 226, 2, 998, 208, 3, 2, 2, 2, 999, 1000, 5, 423, 212, 2, 1000, 1001, 5, 417, 209, 2, 1001, 1002, 5, 465, 233, 2, 1002, 210, 3, 2, 2, 2, 1003, 1004, 5, 453, 227, 2, 1004, 1005, 5, 433, 217, 2, 1005, 1006, 5, 439, 220, 2, 1006, 1007, 5, 425, 213, 2, 1007, 1008, 5, 443, 222, 2, 1008, 1009, 5, 455, 228, 2, 1009, 212, 3, 2, 2, 2, 1010, 1011, 5, 453, 227, 2, 1011, 1012, 5, 455, 228, 2, 1012, 1013, 5, 451, 226, 2, 1013, 1014, 5, 439, 220, 2, 1014, 1015, 5, 417, 209, 2, 1015, 1016, 5, 443, 222, 2, 1016, 1017, 5, 429, 215, 2, 1017, 214, 3, 2, 2, 2, 1018, 1019, 5, 445, 223, 2, 1019, 1020, 5, 451, 226, 2, 1020, 1021, 5, 423, 212, 2, 1021, 1022, 5, 425, 213, 2, 1022, 1023, 5, 451, 226, 2, 1023, 216, 3, 2, 2, 2, 1024, 1025, 5, 451, 226, 2, 1025, 1026, 5, 445, 223, 2, 1026, 1027, 5, 457, 229, 2, 1027, 1028, 5, 443, 222, 2, 1028, 1029, 5, 423, 212, 2, 1029, 218, 3, 2, 2, 2, 1030, 1031, 5, 429, 215, 2, 1031, 1032, 5, 451, 226, 2, 1032, 1033, 5, 417, 209, 2, 1033, 1034, 5, 447, 224, 2, 1034, 1035, 5, 431, 216, 2, 1035, 220, 3, 2, 2, 2, 1036, 1037, 5, 453, 227, 2, 1037, 1038, 5, 425, 213, 2, 1038, 1039, 5, 421, 211, 2, 1039, 1040, 5, 445, 223, 2, 1040, 1041, 5, 443, 222, 2, 1041, 1042, 5, 423, 212, 2, 1042, 1043, 5, 453, 227, 2, 1043, 222, 3, 2, 2, 2, 1044, 1045, 5, 457, 229, 2, 1045, 1046, 5, 451, 226, 2, 1046, 1047, 5, 433, 217, 2, 1047, 224, 3, 2, 2, 2, 1048, 1049, 5, 423, 212, 2, 1049, 1050, 5, 433, 217, 2, 1050, 1051, 5, 453, 227, 2, 1051, 1052, 5, 455, 228, 2, 1052, 1053, 5, 433, 217, 2, 1053, 1054, 5, 443, 222, 2, 1054, 1055, 5, 421, 211, 2, 1055, 1056, 5, 455, 228, 2, 1056, 226, 3, 2, 2, 2, 1057, 1058, 5, 425, 213, 2, 1058, 1059, 5, 463, 232, 2, 1059, 1060, 5, 433, 217, 2, 1060, 1061, 5, 453, 227, 2, 1061, 1062, 5, 455, 228, 2, 1062, 1063, 5, 453, 227, 2, 1063, 228, 3, 2, 2, 2, 1064, 1065, 5, 429, 215, 2, 1065, 1066, 5, 451, 226, 2, 1066, 1067, 5, 445, 223, 2, 1067, 1068, 5, 457, 229, 2, 1068, 1069, 5, 447, 224, 2, 1069, 230, 3, 2, 2, 2, 1070, 1071, 5, 453, 227, 2, 1071, 1072, 5, 457, 229, 2, 1072, 1073, 5, 441, 221, 2, 1073, 232, 3, 2, 2, 2, 1074, 1075, 5, 451, 226, 2, 1075, 1076, 5, 425, 213, 2, 1076, 1077, 5, 423, 212, 2, 1077, 1078, 5, 457, 229, 2, 1078, 1079, 5, 421, 211, 2, 1079, 1080, 5, 425, 213, 2, 1080, 1081, 5, 423, 212, 2, 1081, 234, 3, 2, 2, 2, 1082, 1083, 5, 427, 214, 2, 1083, 1084, 5, 451, 226, 2, 1084, 1085, 5, 445, 223, 2, 1085, 1086, 5, 441, 221, 2, 1086, 236, 3, 2, 2, 2, 1087, 1088, 5, 439, 220, 2, 1088, 1089, 5, 417, 209, 2, 1089, 1090, 5, 443, 222, 2, 1090, 1091, 5, 429, 215, 2, 1091, 1092, 5, 441, 221, 2, 1092, 1093, 5, 417, 209, 2, 1093, 1094, 5, 455, 228, 2, 1094, 1095, 5, 421, 211, 2, 1095, 1096, 5, 431, 216, 2, 1096, 1097, 5, 425, 213, 2, 1097, 1098, 5, 453, 227, 2, 1098, 238, 3, 2, 2, 2, 1099, 1100, 5, 433, 217, 2, 1100, 1101, 5, 453, 227, 2, 1101, 1102, 5, 457, 229, 2, 1102, 1103, 5, 451, 226, 2, 1103, 1104, 5, 433, 217, 2, 1104, 240, 3, 2, 2, 2, 1105, 1106, 5, 455, 228, 2, 1106, 1107, 5, 445, 223, 2, 1107, 242, 3, 2, 2, 2, 1108, 1109, 5, 433, 217, 2, 1109, 1110, 5, 453, 227, 2, 1110, 1111, 5, 433, 217, 2, 1111, 1112, 5, 451, 226, 2, 1112, 1113, 5, 433, 217, 2, 1113, 244, 3, 2, 2, 2, 1114, 1115, 5, 451, 226, 2, 1115, 1116, 5, 417, 209, 2, 1116, 1117, 5, 443, 222, 2, 1117, 1118, 5, 423, 212, 2, 1118, 246, 3, 2, 2, 2, 1119, 1120, 5, 453, 227, 2, 1120, 1121, 5, 455, 228, 2, 1121, 1122, 5, 451, 226, 2, 1122, 1123, 5, 423, 212, 2, 1123, 1124, 5, 455, 228, 2, 1124, 248, 3, 2, 2, 2, 1125, 1126, 5, 421, 211, 2, 1126, 1127, 5, 445, 223, 2, 1127, 1128, 5, 457, 229, 2, 1128, 1129, 5, 443, 222, 2, 1129, 1130, 5, 455, 228, 2, 1130, 250, 3, 2, 2, 2, 1131, 1132, 5, 423, 212, 2, 1132, 1133, 5, 425, 213, 2, 1133, 1134, 5, 453, 227, 2, 1134, 1135, 5, 421, 211, 2, 1135, 1136, 5, 451, 226, 2, 1136, 1137, 5, 433, 217, 2, 1137, 1138, 5, 419, 210, 2, 1138, 1139, 5, 425, 213, 2, 1139, 252, 3, 2, 2, 2, 1140, 1141, 5, 459, 230, 2, 1141, 1142, 5, 417, 209, 2, 1142, 1143, 5, 439, 220, 2, 1143, 1144, 5, 457, 229, 2, 1144, 1145, 5, 425, 213, 2, 1145, 1146, 5, 453, 227, 2, 1146, 254, 3, 2, 2, 2, 1147, 1148, 5, 439, 220, 2, 1148, 1149, 5, 421, 211, 2, 1149, 1150, 5, 417, 209, 2, 1150, 1151, 5, 453, 227, 2, 1151, 1152, 5, 425, 213, 2, 1152, 256, 3, 2, 2, 2, 1153, 1154, 5, 445, 223, 2, 1154, 1155, 5, 447, 224, 2, 1155, 1156, 5, 455, 228, 2, 1156, 1157, 5, 433, 217, 2, 1157, 1158, 5, 445, 223, 2, 1158, 1159, 5, 443, 222, 2, 1159, 1160, 5, 417, 209, 2, 1160, 1161, 5, 439, 220, 2, 1161, 258, 3, 2, 2, 2, 1162, 1163, 5, 439, 220, 2, 1163, 1164, 5, 433, 217, 2, 1164, 1165, 5, 441, 221, 2, 1165, 1166, 5, 433, 217, 2, 1166, 1167, 5, 455, 228, 2, 1167, 260, 3, 2, 2, 2, 1168, 1169, 5, 453, 227, 2, 1169, 1170, 5, 457, 229, 2, 1170, 1171, 5, 419, 210, 2, 1171, 1172, 5, 453, 227, 2, 1172, 1173, 5, 455, 228, 2, 1173, 1174, 5, 451, 226, 2, 1174, 262, 3, 2, 2, 2, 1175, 1176, 5, 453, 227, 2, 1176, 1177, 5, 433, 217, 2, 1177, 1178, 5, 441, 221, 2, 1178, 1179, 5, 447, 224, 2, 1179, 1180, 5, 439, 220, 2, 1180, 1181, 5, 425, 213, 2, 1181, 1182, 5, 421, 211, 2, 1182, 1183, 5, 465, 233, 2, 1183, 1184, 5, 421, 211, 2, 1184, 1185, 5, 439, 220, 2, 1185, 1186, 5, 425, 213, 2, 1186, 1187, 5, 447, 224, 2, 1187, 1188, 5, 417, 209, 2, 1188, 1189, 5, 455, 228, 2, 1189, 1190, 5, 431, 216, 2, 1190, 264, 3, 2, 2, 2, 1191, 1192, 5, 453, 227, 2, 1192, 1193, 5, 433, 217, 2, 1193, 1194, 5, 441, 221, 2, 1194, 1195, 5, 447, 224, 2, 1195, 1196, 5, 439, 220, 2, 1196, 1197, 5, 425, 213, 2, 1197, 1198, 5, 421, 211, 2, 1198, 1199, 5, 465, 233, 2, 1199, 1200, 5, 421, 211, 2, 1200, 1201, 5, 439, 220, 2, 1201, 1202, 5, 425, 213, 2, 1202, 1203, 5, 419, 210, 2, 1203, 1204, 5, 445, 223, 2, 1204, 1205, 5, 445, 223, 2, 1205, 1206, 5, 439, 220, 2, 1206, 1207, 5, 425, 213, 2, 1207, 1208, 5, 417, 209, 2, 1208, 1209, 5, 443, 222, 2, 1209, 266, 3, 2, 2, 2, 1210, 1211, 5, 421, 211, 2, 1211, 1212, 5, 465, 233, 2, 1212, 1213, 5, 421, 211, 2, 1213, 1214, 5, 439, 220, 2, 1214, 1215, 5, 425, 213, 2, 1215, 1216, 5, 447, 224, 2, 1216, 1217, 5, 417, 209, 2, 1217, 1218, 5, 455, 228, 2, 1218, 1219, 5, 431, 216, 2, 1219, 268, 3, 2, 2, 2, 1220, 1221, 5, 421, 211, 2, 1221, 1222, 5, 465, 233, 2, 1222, 1223, 5, 421, 211, 2, 1223, 1224, 5, 439, 220, 2, 1224, 1225, 5, 425, 213, 2, 1225, 1226, 5, 419, 210, 2, 1226, 1227, 5, 445, 223, 2, 1227, 1228, 5, 445, 223, 2, 1228, 1229, 5, 439, 220, 2, 1229, 1230, 5, 425, 213, 2, 1230, 1231, 5, 417, 209, 2, 1231, 1232, 5, 443, 222, 2, 1232, 270, 3, 2, 2, 2, 1233, 1234, 5, 453, 227, 2, 1234, 1235, 5, 431, 216, 2, 1235, 1236, 5, 445, 223, 2, 1236, 1237, 5, 451, 226, 2, 1237, 1238, 5, 455, 228, 2, 1238, 1239, 5, 425, 213, 2, 1239, 1240, 5, 453, 227, 2, 1240, 1241, 5, 455, 228, 2, 1241, 1242, 5, 447, 224, 2, 1242, 1243, 5, 417, 209, 2, 1243, 1244, 5, 455, 228, 2, 1244, 1245, 5, 431, 216, 2, 1245, 272, 3, 2, 2, 2, 1246, 1247, 5, 453, 227, 2, 1247, 1248, 5, 431, 216, 2, 1248, 1249, 5, 445, 223, 2, 1249, 1250, 5, 451, 226, 2, 1250, 1251, 5, 455, 228, 2, 1251, 1252, 5, 425, 213, 2, 1252, 1253, 5, 453, 227, 2, 1253, 1254, 5, 455, 228, 2, 1254, 1255, 5, 447, 224, 2, 1255, 1256, 5, 417, 209, 2, 1256, 1257, 5, 455, 228, 2, 1257, 1258, 5, 431, 216, 2, 1258, 1259, 5, 439, 220, 2, 1259, 1260, 5, 425, 213, 2, 1260, 1261, 5, 443, 222, 2, 1261, 274, 3, 2, 2, 2, 1262, 1263, 5, 437, 219, 2, 1263, 1264, 5, 431, 216, 2, 1264, 1265, 5, 445, 223, 2, 1265, 1266, 5, 447, 224, 2, 1266, 1267, 5, 451, 226, 2, 1267, 1268, 5, 425, 213, 2, 1268, 1269, 5, 417, 209, 2, 1269, 1270, 5, 421, 211, 2, 1270, 1271, 5, 431, 216, 2, 1271, 1272, 5, 417, 209, 2, 1272, 1273, 5, 419, 210, 2, 1273, 1274, 5, 439, 220, 2, 1274, 1275, 5, 425, 213, 2, 1275, 276, 3, 2, 2, 2, 1276, 1277, 5, 437, 219, 2, 1277, 1278, 5, 431, 216, 2, 1278, 1279, 5, 445, 223, 2, 1279, 1280, 5, 447, 224, 2, 1280, 1281, 5, 425, 213, 2, 1281, 1282, 5, 443, 222, 2, 1282, 1283, 5, 457, 229, 2, 1283, 1284, 5, 441, 221, 2, 1284, 1285, 5, 425, 213, 2, 1285, 1286, 5, 451, 226, 2, 1286, 1287, 5, 417, 209, 2, 1287, 1288, 5, 455, 228, 2, 1288, 1289, 5, 425, 213, 2, 1289, 278, 3, 2, 2, 2, 1290, 1291, 5, 437, 219, 2, 1291, 1292, 5, 431, 216, 2, 1292, 1293, 5, 445, 223, 2, 1293, 1294, 5, 447, 224, 2, 1294, 1295, 5, 451, 226, 2, 1295, 1296, 5, 425, 213, 2, 1296, 1297, 5, 417, 209, 2, 1297, 1298, 5, 421, 211, 2, 1298, 1299, 5, 431, 216, 2, 1299, 1300, 5, 417, 209, 2, 1300, 1301, 5, 419, 210, 2, 1301, 1302, 5, 439, 220, 2, 1302, 1303, 5, 425, 213, 2, 1303, 1304, 5, 447, 224, 2, 1304, 1305, 5, 417, 209, 2, 1305, 1306, 5, 455, 228, 2, 1306, 1307, 5, 431, 216, 2, 1307, 280, 3, 2, 2, 2, 1308, 1309, 5, 447, 224, 2, 1309, 1310, 5, 447, 224, 2, 1310, 1311, 5, 451, 226, 2, 1311, 282, 3, 2, 2, 2, 1312, 1313, 5, 455, 228, 2, 1313, 1314, 5, 451, 226, 2, 1314, 1315, 5, 433, 217, 2, 1315, 1316, 5, 417, 209, 2, 1316, 1317, 5, 443, 222, 2, 1317, 1318, 5, 429, 215, 2, 1318, 1319, 5, 439, 220, 2, 1319, 1320, 5, 425, 213, 2, 1320, 1321, 5, 421, 211, 2, 1321, 1322, 5, 445, 223, 2, 1322, 1323, 5, 457, 229, 2, 1323, 1324, 5, 443, 222, 2, 1324, 1325, 5, 455, 228, 2, 1325, 1326, 5, 433, 217, 2, 1326, 1327, 5, 443, 222, 2, 1327, 1328, 5, 429, 215, 2, 1328, 284, 3, 2, 2, 2, 1329, 1330, 5, 421, 211, 2, 1330, 1331, 5, 439, 220, 2, 1331, 1332, 5, 445, 223, 2, 1332, 1333, 5, 453, 227, 2, 1333, 1334, 5, 425, 213, 2, 1334, 1335, 5, 443, 222, 2, 1335, 1336, 5, 425, 213, 2, 1336, 1337, 5, 453, 227, 2, 1337, 1338, 5, 453, 227, 2, 1338, 1339, 5, 421, 211, 2, 1339, 1340, 5, 425, 213, 2, 1340, 1341, 5, 443, 222, 2, 1341, 1342, 5, 455, 228, 2, 1342, 1343, 5, 451, 226, 2, 1343, 1344, 5, 417, 209, 2, 1344, 1345, 5, 439, 220, 2, 1345, 1346, 5, 433, 217, 2, 1346, 1347, 5, 455, 228, 2, 1347, 1348, 5, 465, 233, 2, 1348, 286, 3, 2, 2, 2, 1349, 1350, 5, 419, 210, 2, 1350, 1351, 5, 427, 214, 2, 1351, 1352, 5, 453, 227, 2, 1352, 1353, 5, 421, 211, 2, 1353, 1354, 5, 445, 223, 2, 1354, 1355, 5, 457, 229, 2, 1355, 1356, 5, 443, 222, 2, 1356, 1357, 5, 455, 228, 2, 1357, 288, 3, 2, 2, 2, 1358, 1359, 5, 447, 224, 2, 1359, 1360, 5, 451, 226, 2, 1360, 290, 3, 2, 2, 2, 1361, 1362, 5, 417, 209, 2, 1362, 1363, 5, 439, 220, 2, 1363, 1364, 5, 447, 224, 2, 1364, 1365, 5, 431, 216, 2, 1365, 1366, 5, 417, 209, 2, 1366, 292, 3, 2, 2, 2, 1367, 1368, 5, 441, 221, 2, 1368, 1369, 5, 417, 209, 2, 1369, 1370, 5, 463, 232, 2, 1370, 1371, 5, 433, 217, 2, 1371, 1372, 5, 455, 228, 2, 1372, 1373, 5, 425, 213, 2, 1373, 1374, 5, 451, 226, 2, 1374, 294, 3, 2, 2, 2, 1375, 1376, 5, 455, 228, 2, 1376, 1377, 5, 445, 223, 2, 1377, 1378, 5, 439, 220, 2, 1378, 296, 3, 2, 2, 2, 1379, 1380, 5, 453, 227, 2, 1380, 1381, 5, 453, 227, 2, 1381, 1382, 5, 453, 227, 2, 1382, 1383, 5, 447, 224, 2, 1383, 298, 3, 2, 2, 2, 1384, 1385, 5, 453, 227, 2, 1385, 1386, 5, 453, 227, 2, 1386, 1387, 5, 453, 227, 2, 1387, 1388, 5, 447, 224, 2, 1388, 1389, 5, 439, 220, 2, 1389, 1390, 5, 425, 213, 2, 1390, 1391, 5, 443, 222, 2, 1391, 300, 3, 2, 2, 2, 1392, 1393, 5, 439, 220, 2, 1393, 1394, 5, 417, 209, 2, 1394, 1395, 5, 419, 210, 2, 1395, 1396, 5, 425, 213, 2, 1396, 1397, 5, 439, 220, 2, 1397, 1398, 5, 447, 224, 2, 1398, 1399, 5, 451, 226, 2, 1399, 1400, 5, 445, 223, 2, 1400, 1401, 5, 447, 224, 2, 1401, 302, 3, 2, 2, 2, 1402, 1403, 5, 461, 231, 2, 1403, 1404, 5, 421, 211, 2, 1404, 1405, 5, 421, 211, 2, 1405, 304, 3, 2, 2, 2, 1406, 1407, 5, 421, 211, 2, 1407, 1408, 5, 439, 220, 2, 1408, 1409, 5, 457, 229, 2, 1409, 1410, 5, 453, 227, 2, 1410, 1411, 5, 455, 228, 2, 1411, 1412, 5, 425, 213, 2, 1412, 1413, 5, 451, 226, 2, 1413, 1414, 5, 421, 211, 2, 1414, 1415, 5, 445, 223, 2, 1415, 1416, 5, 425, 213, 2, 1416, 1417, 5, 427, 214, 2, 1417, 1418, 5, 427, 214, 2, 1418, 306, 3, 2, 2, 2, 1419, 1420, 5, 441, 221, 2, 1420, 1421, 5, 417, 209, 2, 1421, 1422, 5, 463, 232, 2, 1422, 1423, 5, 433, 217, 2, 1423, 1424, 5, 441, 221, 2, 1424, 1425, 5, 457, 229, 2, 1425, 1426, 5, 441, 221, 2, 1426, 1427, 5, 437, 219, 2, 1427, 1428, 5, 447, 224, 2, 1428, 1429, 5, 439, 220, 2, 1429, 1430, 5, 425, 213, 2, 1430, 1431, 5, 463, 232, 2, 1431, 308, 3, 2, 2, 2, 1432, 1433, 5, 421, 211, 2, 1433, 1434, 5, 445, 223, 2, 1434, 1435, 5, 451, 226, 2, 1435, 1436, 5, 425, 213, 2, 1436, 1437, 5, 455, 228, 2, 1437, 1438, 5, 451, 226, 2, 1438, 1439, 5, 457, 229, 2, 1439, 1440, 5, 453, 227, 2, 1440, 1441, 5, 453, 227, 2, 1441, 310, 3, 2, 2, 2, 1442, 1443, 5, 447, 224, 2, 1443, 1444, 5, 427, 214, 2, 1444, 1445, 5, 443, 222, 2, 1445, 312, 3, 2, 2, 2, 1446, 1447, 5, 437, 219, 2, 1447, 1448, 5, 431, 216, 2, 1448, 1449, 5, 445, 223, 2, 1449, 1450, 5, 447, 224, 2, 1450, 1451, 5, 421, 211, 2, 1451, 1452, 5, 445, 223, 2, 1452, 1453, 5, 457, 229, 2, 1453, 1454, 5, 443, 222, 2, 1454, 1455, 5, 455, 228, 2, 1455, 314, 3, 2, 2, 2, 1456, 1457, 5, 437, 219, 2, 1457, 1458, 5, 431, 216, 2, 1458, 1459, 5, 445, 223, 2, 1459, 1460, 5, 447, 224, 2, 1460, 1461, 5, 443, 222, 2, 1461, 1462, 5, 425, 213, 2, 1462, 1463, 5, 433, 217, 2, 1463, 1464, 5, 429, 215, 2, 1464, 1465, 5, 431, 216, 2, 1465, 1466, 5, 419, 210, 2, 1466, 1467, 5, 445, 223, 2, 1467, 1468, 5, 451, 226, 2, 1468, 316, 3, 2, 2, 2, 1469, 1470, 5, 453, 227, 2, 1470, 1471, 5, 431, 216, 2, 1471, 1472, 5, 445, 223, 2, 1472, 1473, 5, 451, 226, 2, 1473, 1474, 5, 455, 228, 2, 1474, 1475, 5, 425, 213, 2, 1475, 1476, 5, 453, 227, 2, 1476, 1477, 5, 455, 228, 2, 1477, 1478, 5, 447, 224, 2, 1478, 1479, 5, 417, 209, 2, 1479, 1480, 5, 455, 228, 2, 1480, 1481, 5, 431, 216, 2, 1481, 1482, 5, 421, 211, 2, 1482, 1483, 5, 445, 223, 2, 1483, 1484, 5, 457, 229, 2, 1484, 1485, 5, 443, 222, 2, 1485, 1486, 5, 455, 228, 2, 1486, 318, 3, 2, 2, 2, 1487, 1488, 5, 439, 220, 2, 1488, 1489, 5, 445, 223, 2, 1489, 1490, 5, 457, 229, 2, 1490, 1491, 5, 459, 230, 2, 1491, 1492, 5, 417, 209, 2, 1492, 1493, 5, 433, 217, 2, 1493, 1494, 5, 443, 222, 2, 1494, 320, 3, 2, 2, 2, 1495, 1496, 5, 433, 217, 2, 1496, 1497, 5, 421, 211, 2, 1497, 1498, 7, 51, 2, 2, 1498, 1499, 7, 54, 2, 2, 1499, 322, 3, 2, 2, 2, 1500, 1501, 5, 433, 217, 2, 1501, 1502, 5, 443, 222, 2, 1502, 1503, 5, 421, 211, 2, 1503, 1504, 5, 451, 226, 2, 1504, 1505, 5, 425, 213, 2, 1505, 1506, 5, 417, 209, 2, 1506, 1507, 5, 453, 227, 2, 1507, 1508, 5, 425, 213, 2, 1508, 324, 3, 2, 2, 2, 1509, 1510, 5, 433, 217, 2, 1510, 1511, 5, 443, 222, 2, 1511, 1512, 5, 453, 227, 2, 1512, 1513, 5, 425, 213, 2, 1513, 1514, 5, 451, 226, 2, 1514, 1515, 5, 455, 228, 2, 1515, 1516, 7, 34, 2, 2, 1516, 1517, 5, 423, 212, 2, 1517, 1518, 5, 417, 209, 2, 1518, 1519, 5, 455, 228, 2, 1519, 1520, 5, 417, 209, 2, 1520, 326, 3, 2, 2, 2, 1521, 1522, 5, 423, 212, 2, 1522, 1523, 5, 425, 213, 2, 1523, 1524, 5, 439, 220, 2, 1524, 1525, 5, 425, 213, 2, 1525, 1526, 5, 455, 228, 2, 1526, 1527, 5, 425, 213, 2, 1527, 1528, 7, 34, 2, 2, 1528, 1529, 5, 423, 212, 2, 1529, 1530, 5, 417, 209, 2, 1530, 1531, 5, 455, 228, 2, 1531, 1532, 5, 417, 209, 2, 1532, 328, 3, 2, 2, 2, 1533, 1534, 5, 423, 212, 2, 1534, 1535, 5, 425, 213, 2, 1535, 1536, 5, 439, 220, 2, 1536, 1537, 5, 425, 213, 2, 1537, 1538, 5, 455, 228, 2, 1538, 1539, 5, 425, 213, 2, 1539, 1540, 7, 34, 2, 2, 1540, 1541, 5, 461, 231, 2, 1541, 1542, 5, 431, 216, 2, 1542, 1543, 5, 425, 213, 2, 1543, 1544, 5, 451, 226, 2, 1544, 1545, 5, 425, 213, 2, 1545, 330, 3, 2, 2, 2, 1546, 1547, 5, 425, 213, 2, 1547, 1548, 5, 443, 222, 2, 1548, 1549, 5, 421, 211, 2, 1549, 1550, 5, 445, 223, 2, 1550, 1551, 5, 423, 212, 2, 1551, 1552, 5, 425, 213, 2, 1552, 1553, 7, 97, 2, 2, 1553, 1554, 5, 427, 214, 2, 1554, 1555, 5, 445, 223, 2, 1555, 1556, 5, 451, 226, 2, 1556, 1557, 7, 97, 2, 2, 1557, 1558, 5, 457, 229, 2, 1558, 1559, 5, 451, 226, 2, 1559, 1560, 5, 433, 217, 2, 1560, 332, 3, 2, 2, 2, 1561, 1562, 5, 441, 221, 2, 1562, 1563, 5, 423, 212, 2, 1563, 1564, 7, 55, 2, 2, 1564, 334, 3, 2, 2, 2, 1565, 1566, 5, 453, 227, 2, 1566, 1567, 5, 431, 216, 2, 1567, 1568, 5, 417, 209, 2, 1568, 1569, 7, 51, 2, 2, 1569, 336, 3, 2, 2, 2, 1570, 1571, 5, 453, 227, 2, 1571, 1572, 5, 431, 216, 2, 1572, 1573, 5, 417, 209, 2, 1573, 1574, 7, 52, 2, 2, 1574, 1575, 7, 55, 2, 2, 1575, 1576, 7, 56, 2, 2, 1576, 338, 3, 2, 2, 2, 1577, 1578, 5, 453, 227, 2, 1578, 1579, 5, 431, 216, 2, 1579, 1580, 5, 417, 209, 2, 1580, 1581, 7, 53, 2, 2, 1581, 1582, 7, 58, 2, 2, 1582, 1583, 7, 54, 2, 2, 1583, 340, 3, 2, 2, 2, 1584, 1585, 5, 453, 227, 2, 1585, 1586, 5, 431, 216, 2, 1586, 1587, 5, 417, 209, 2, 1587, 1588, 7, 55, 2, 2, 1588, 1589, 7, 51, 2, 2, 1589, 1590, 7, 52, 2, 2, 1590, 342, 3, 2, 2, 2, 1591, 1592, 5, 429, 215, 2, 1592, 1593, 5, 451, 226, 2, 1593, 1594, 5, 445, 223, 2, 1594, 1595, 5, 457, 229, 2, 1595, 1596, 5, 447, 224, 2, 1596, 1597, 7, 97, 2, 2, 1597, 1598, 5, 421, 211, 2, 1598, 1599, 5, 445, 223, 2, 1599, 1600, 5, 443, 222, 2, 1600, 1601, 5, 421, 211, 2, 1601, 1602, 5, 417, 209, 2, 1602, 1603, 5, 455, 228, 2, 1603, 344, 3, 2, 2, 2, 1604, 1608, 7, 62, 2, 2, 1605, 1607, 10, 2, 2, 2, 1606, 1605, 3, 2, 2, 2, 1607, 1610, 3, 2, 2, 2, 1608, 1606, 3, 2, 2, 2, 1608, 1609, 3, 2, 2, 2, 1609, 1611, 3, 2, 2, 2, 1610, 1608, 3, 2, 2, 2, 1611, 1612, 7, 64, 2, 2, 1612, 346, 3, 2, 2, 2, 1613, 1615, 5, 403, 202, 2, 1614, 1613, 3, 2, 2, 2, 1614, 1615, 3, 2, 2, 2, 1615, 1616, 3, 2, 2, 2, 1616, 1617, 7, 60, 2, 2, 1617, 348, 3, 2, 2, 2, 1618, 1619, 5, 347, 174, 2, 1619, 1620, 5, 405, 203, 2, 1620, 350, 3, 2, 2, 2, 1621, 1622, 7, 97, 2, 2, 1622, 1623, 7, 60, 2, 2, 1623, 1626, 3, 2, 2, 2, 1624, 1627, 5, 397, 199, 2, 1625, 1627, 9, 3, 2, 2, 1626, 1624, 3, 2, 2, 2, 1626, 1625, 3, 2, 2, 2, 1627, 1636, 3, 2, 2, 2, 1628, 1631, 5, 401, 201, 2, 1629, 1631, 7, 48, 2, 2, 1630, 1628, 3, 2, 2, 2, 1630, 1629, 3, 2, 2, 2, 1631, 1634, 3, 2, 2, 2, 1632, 1630, 3, 2, 2, 2, 1632, 1633, 3, 2, 2, 2, 1633, 1635, 3, 2, 2, 2, 1634, 1632, 3, 2, 2, 2, 1635, 1637, 5, 401, 201, 2, 1636, 1632, 3, 2, 2, 2, 1636, 1637, 3, 2, 2, 2, 1637, 352, 3, 2, 2, 2, 1638, 1639, 7, 65, 2, 2, 1639, 1640, 5, 399, 200, 2, 1640, 354, 3, 2, 2, 2, 1641, 1642, 7, 38, 2, 2, 1642, 1643, 5, 399, 200, 2, 1643, 356, 3, 2, 2, 2, 1644, 1646, 7, 66, 2, 2, 1645, 1647, 9, 4, 2, 2, 1646, 1645, 3, 2, 2, 2, 1647, 1648, 3, 2, 2, 2, 1648, 1646, 3, 2, 2, 2, 1648, 1649, 3, 2, 2, 2, 1649, 1658, 3, 2, 2, 2, 1650, 1652, 7, 47, 2, 2, 1651, 1653, 9, 5, 2, 2, 1652, 1651, 3, 2, 2, 2, 1653, 1654, 3, 2, 2, 2, 1654, 1652, 3, 2, 2, 2, 1654, 1655, 3, 2, 2, 2, 1655, 1657, 3, 2, 2, 2, 1656, 1650, 3, 2, 2, 2, 1657, 1660, 3, 2, 2, 2, 1658, 1656, 3, 2, 2, 2, 1658, 1659, 3, 2, 2, 2, 1659, 358, 3, 2, 2, 2, 1660, 1658, 3, 2, 2, 2, 1661, 1663, 9, 3, 2, 2, 1662, 1661, 3, 2, 2, 2, 1663, 1664, 3, 2, 2, 2, 1664, 1662, 3, 2, 2, 2, 1664, 1665, 3, 2, 2, 2, 1665, 360, 3, 2, 2, 2, 1666, 1668, 9, 3, 2, 2, 1667, 1666, 3, 2, 2, 2, 1668, 1671, 3, 2, 2, 2, 1669, 1667, 3, 2, 2, 2, 1669, 1670, 3, 2, 2, 2, 1670, 1672, 3, 2, 2, 2, 1671, 1669, 3, 2, 2, 2, 1672, 1674, 7, 48, 2, 2, 1673, 1675, 9, 3, 2, 2, 1674, 1673, 3, 2, 2, 2, 1675, 1676, 3, 2, 2, 2, 1676, 1674, 3, 2, 2, 2, 1676, 1677, 3, 2, 2, 2, 1677, 362, 3, 2, 2, 2, 1678, 1680, 9, 3, 2, 2, 1679, 1678, 3, 2, 2, 2, 1680, 1681, 3, 2, 2, 2, 1681, 1679, 3, 2, 2, 2, 1681, 1682, 3, 2, 2, 2, 1682, 1683, 3, 2, 2, 2, 1683, 1687, 7, 48, 2, 2, 1684, 1686, 9, 3, 2, 2, 1685, 1684, 3, 2, 2, 2, 1686, 1689, 3, 2, 2, 2, 1687, 1685, 3, 2, 2, 2, 1687, 1688, 3, 2, 2, 2, 1688, 1690, 3, 2, 2, 2, 1689, 1687, 3, 2, 2, 2, 1690, 1705, 5, 377, 189, 2, 1691, 1693, 7, 48, 2, 2, 1692, 1694, 9, 3, 2, 2, 1693, 1692, 3, 2, 2, 2, 1694, 1695, 3, 2, 2, 2, 1695, 1693, 3, 2, 2, 2, 1695, 1696, 3, 2, 2, 2, 1696, 1697, 3, 2, 2, 2, 1697, 1705, 5, 377, 189, 2, 1698, 1700, 9, 3, 2, 2, 1699, 1698, 3, 2, 2, 2, 1700, 1701, 3, 2, 2, 2, 1701, 1699, 3, 2, 2, 2, 1701, 1702, 3, 2, 2, 2, 1702, 1703, 3, 2, 2, 2, 1703, 1705, 5, 377, 189, 2, 1704, 1679, 3, 2, 2, 2, 1704, 1691, 3, 2, 2, 2, 1704, 1699, 3, 2, 2, 2, 1705, 364, 3, 2, 2, 2, 1706, 1707, 7, 45, 2, 2, 1707, 1708, 5, 359, 180, 2, 1708, 366, 3, 2, 2, 2, 1709, 1710, 7, 45, 2, 2, 1710, 1711, 5, 361, 181, 2, 1711, 368, 3, 2, 2, 2, 1712, 1713, 7, 45, 2, 2, 1713, 1714, 5, 363, 182, 2, 1714, 370, 3, 2, 2, 2, 1715, 1716, 7, 47, 2, 2, 1716, 1717, 5, 359, 180, 2, 1717, 372, 3, 2, 2, 2, 1718, 1719, 7, 47, 2, 2, 1719, 1720, 5, 361, 181, 2, 1720, 374, 3, 2, 2, 2, 1721, 1722, 7, 47, 2, 2, 1722, 1723, 5, 363, 182, 2, 1723, 376, 3, 2, 2, 2, 1724, 1726, 9, 6, 2, 2, 1725, 1727, 9, 7, 2, 2, 1726, 1725, 3, 2, 2, 2, 1726, 1727, 3, 2, 2, 2, 1727, 1729, 3, 2, 2, 2, 1728, 1730, 9, 3, 2, 2, 1729, 1728, 3, 2, 2, 2, 1730, 1731, 3, 2, 2, 2, 1731, 1729, 3, 2, 2, 2, 1731, 1732, 3, 2, 2, 2, 1732, 378, 3, 2, 2, 2, 1733, 1738, 7, 41, 2, 2, 1734, 1737, 10, 8, 2, 2, 1735, 1737, 5, 387, 194, 2, 1736, 1734, 3, 2, 2, 2, 1736, 1735, 3, 2, 2, 2, 1737, 1740, 3, 2, 2, 2, 1738, 1736, 3, 2, 2, 2, 1738, 1739, 3, 2, 2, 2, 1739, 1741, 3, 2, 2, 2, 1740, 1738, 3, 2, 2, 2, 1741, 1742, 7, 41, 2, 2, 1742, 380, 3, 2, 2, 2, 1743, 1748, 7, 36, 2, 2, 1744, 1747, 10, 9, 2, 2, 1745, 1747, 5, 387, 194, 2, 1746, 1744, 3, 2, 2, 2, 1746, 1745, 3, 2, 2, 2, 1747, 1750, 3, 2, 2, 2, 1748, 1746, 3, 2, 2, 2, 1748, 1749, 3, 2, 2, 2, 1749, 1751, 3, 2, 2, 2, 1750, 1748, 3, 2, 2, 2, 1751, 1752, 7, 36, 2, 2, 1752, 382, 3, 2, 2, 2, 1753, 1754, 7, 41, 2, 2, 1754, 1755, 7, 41, 2, 2, 1755, 1756, 7, 41, 2, 2, 1756, 1768, 3, 2, 2, 2, 1757, 1761, 7, 41, 2, 2, 1758, 1759, 7, 41, 2, 2, 1759, 1761, 7, 41, 2, 2, 1760, 1757, 3, 2, 2, 2, 1760, 1758, 3, 2, 2, 2, 1760, 1761, 3, 2, 2, 2, 1761, 1764, 3, 2, 2, 2, 1762, 1765, 9, 10, 2, 2, 1763, 1765, 5, 387, 194, 2, 1764, 1762, 3, 2, 2, 2, 1764, 1763, 3, 2, 2, 2, 1765, 1767, 3, 2, 2, 2, 1766, 1760, 3, 2, 2, 2, 1767, 1770, 3, 2, 2, 2, 1768, 1766, 3, 2, 2, 2, 1768, 1769, 3, 2, 2, 2, 1769, 1771, 3, 2, 2, 2, 1770, 1768, 3, 2, 2, 2, 1771, 1772, 7, 41, 2, 2, 1772, 1773, 7, 41, 2, 2, 1773, 1774, 7, 41, 2, 2, 1774, 384, 3, 2, 2, 2, 1775, 1776, 7, 36, 2, 2, 1776, 1777, 7, 36, 2, 2, 1777, 1778, 7, 36, 2, 2, 1778, 1790, 3, 2, 2, 2, 1779, 1783, 7, 36, 2, 2, 1780, 1781, 7, 36, 2, 2, 1781, 1783, 7, 36, 2, 2, 1782, 1779, 3, 2, 2, 2, 1782, 1780, 3, 2, 2, 2, 1782, 1783, 3, 2, 2, 2, 1783, 1786, 3, 2, 2, 2, 1784, 1787, 9, 11, 2, 2, 1785, 1787, 5, 387, 194, 2, 1786, 1784, 3, 2, 2, 2, 1786, 1785, 3, 2, 2, 2, 1787, 1789, 3, 2, 2, 2, 1788, 1782, 3, 2, 2, 2, 1789, 1792, 3, 2, 2, 2, 1790, 1788, 3, 2, 2, 2, 1790, 1791, 3, 2, 2, 2, 1791, 1793, 3, 2, 2, 2, 1792, 1790, 3, 2, 2, 2, 1793, 1794, 7, 36, 2, 2, 1794, 1795, 7, 36, 2, 2, 1795, 1796, 7, 36, 2, 2, 1796, 386, 3, 2, 2, 2, 1797, 1798, 7, 94, 2, 2, 1798, 1799, 9, 12, 2, 2, 1799, 388, 3, 2, 2, 2, 1800, 1804, 7, 42, 2, 2, 1801, 1803, 5, 391, 196, 2, 1802, 1801, 3, 2, 2, 2, 1803, 1806, 3, 2, 2, 2, 1804, 1802, 3, 2, 2, 2, 1804, 1805, 3, 2, 2, 2, 1805, 1807, 3, 2, 2, 2, 1806, 1804, 3, 2, 2, 2, 1807, 1808, 7, 43, 2, 2, 1808, 390, 3, 2, 2, 2, 1809, 1810, 9, 13, 2, 2, 1810, 1811, 3, 2, 2, 2, 1811, 1812, 8, 196, 2, 2, 1812, 392, 3, 2, 2, 2, 1813, 1817, 7, 93, 2, 2, 1814, 1816, 5, 391, 196, 2, 1815, 1814, 3, 2, 2, 2, 1816, 1819, 3, 2, 2, 2, 1817, 1815, 3, 2, 2, 2, 1817, 1818, 3, 2, 2, 2, 1818, 1820, 3, 2, 2, 2, 1819, 1817, 3, 2, 2, 2, 1820, 1821, 7, 95, 2, 2, 1821, 394, 3, 2, 2, 2, 1822, 1824, 9, 45, 2, 2, 1823, 1822, 3, 2, 2, 2, 1824, 396, 3, 2, 2, 2, 1825, 1828, 5, 395, 198, 2, 1826, 1828, 7, 97, 2, 2, 1827, 1825, 3, 2, 2, 2, 1827, 1826, 3, 2, 2, 2, 1828, 398, 3, 2, 2, 2, 1829, 1832, 5, 397, 199, 2, 1830, 1832, 9, 3, 2, 2, 1831, 1829, 3, 2, 2, 2, 1831, 1830, 3, 2, 2, 2, 1832, 1837, 3, 2, 2, 2, 1833, 1836, 5, 397, 199, 2, 1834, 1836, 9, 14, 2, 2, 1835, 1833, 3, 2, 2, 2, 1835, 1834, 3, 2, 2, 2, 1836, 1839, 3, 2, 2, 2, 1837, 1835, 3, 2, 2, 2, 1837, 1838, 3, 2, 2, 2, 1838, 400, 3, 2, 2, 2, 1839, 1837, 3, 2, 2, 2, 1840, 1843, 5, 397, 199, 2, 1841, 1843, 9, 15, 2, 2, 1842, 1840, 3, 2, 2, 2, 1842, 1841, 3, 2, 2, 2, 1843, 402, 3, 2, 2, 2, 1844, 1853, 5, 395, 198, 2, 1845, 1848, 5, 401, 201, 2, 1846, 1848, 7, 48, 2, 2, 1847, 1845, 3, 2, 2, 2, 1847, 1846, 3, 2, 2, 2, 1848, 1851, 3, 2, 2, 2, 1849, 1847, 3, 2, 2, 2, 1849, 1850, 3, 2, 2, 2, 1850, 1852, 3, 2, 2, 2, 1851, 1849, 3, 2, 2, 2, 1852, 1854, 5, 401, 201, 2, 1853, 1849, 3, 2, 2, 2, 1853, 1854, 3, 2, 2, 2, 1854, 404, 3, 2, 2, 2, 1855, 1859, 5, 397, 199, 2, 1856, 1859, 4, 50, 60, 2, 1857, 1859, 5, 407, 204, 2, 1858, 1855, 3, 2, 2, 2, 1858, 1856, 3, 2, 2, 2, 1858, 1857, 3, 2, 2, 2, 1859, 1873, 3, 2, 2, 2, 1860, 1864, 5, 401, 201, 2, 1861, 1864, 9, 16, 2, 2, 1862, 1864, 5, 407, 204, 2, 1863, 1860, 3, 2, 2, 2, 1863, 1861, 3, 2, 2, 2, 1863, 1862, 3, 2, 2, 2, 1864, 1867, 3, 2, 2, 2, 1865, 1863, 3, 2, 2, 2, 1865, 1866, 3, 2, 2, 2, 1866, 1871, 3, 2, 2, 2, 1867, 1865, 3, 2, 2, 2, 1868, 1872, 5, 401, 201, 2, 1869, 1872, 7, 60, 2, 2, 1870, 1872, 5, 407, 204, 2, 1871, 1868, 3, 2, 2, 2, 1871, 1869, 3, 2, 2, 2, 1871, 1870, 3, 2, 2, 2, 1872, 1874, 3, 2, 2, 2, 1873, 1865, 3, 2, 2, 2, 1873, 1874, 3, 2, 2, 2, 1874, 406, 3, 2, 2, 2, 1875, 1878, 5, 409, 205, 2, 1876, 1878, 5, 413, 207, 2, 1877, 1875, 3, 2, 2, 2, 1877, 1876, 3, 2, 2, 2, 1878, 408, 3, 2, 2, 2, 1879, 1880, 7, 39, 2, 2, 1880, 1881, 5, 411, 206, 2, 1881, 1882, 5, 411, 206, 2, 1882, 410, 3, 2, 2, 2, 1883, 1885, 9, 17, 2, 2, 1884, 1883, 3, 2, 2, 2, 1885, 412, 3, 2, 2, 2, 1886, 1887, 7, 94, 2, 2, 1887, 1888, 9, 18, 2, 2, 1888, 414, 3, 2, 2, 2, 1889, 1893, 7, 37, 2, 2, 1890, 1892, 10, 19, 2, 2, 1891, 1890, 3, 2, 2, 2, 1892, 1895, 3, 2, 2, 2, 1893, 1891, 3, 2, 2, 2, 1893, 1894, 3, 2, 2, 2, 1894, 1896, 3, 2, 2, 2, 1895, 1893, 3, 2, 2, 2, 1896, 1897, 8, 208, 3, 2, 1897, 416, 3, 2, 2, 2, 1898, 1899, 9, 20, 2, 2, 1899, 418, 3, 2, 2, 2, 1900, 1901, 9, 21, 2, 2, 1901, 420, 3, 2, 2, 2, 1902, 1903, 9, 22, 2, 2, 1903, 422, 3, 2, 2, 2, 1904, 1905, 9, 23, 2, 2, 1905, 424, 3, 2, 2, 2, 1906, 1907, 9, 6, 2, 2, 1907, 426, 3, 2, 2, 2, 1908, 1909, 9, 24, 2, 2, 1909, 428, 3, 2, 2, 2, 1910, 1911, 9, 25, 2, 2, 1911, 430, 3, 2, 2, 2, 1912, 1913, 9, 26, 2, 2, 1913, 432, 3, 2, 2, 2, 1914, 1915, 9, 27, 2, 2, 1915, 434, 3, 2, 2, 2, 1916, 1917, 9, 28, 2, 2, 1917, 436, 3, 2, 2, 2, 1918, 1919, 9, 29, 2, 2, 1919, 438, 3, 2, 2, 2, 1920, 1921, 9, 30, 2, 2, 1921, 440, 3, 2, 2, 2, 1922, 1923, 9, 31, 2, 2, 1923, 442, 3, 2, 2, 2, 1924, 1925, 9, 32, 2, 2, 1925, 444, 3, 2, 2, 2, 1926, 1927, 9, 33, 2, 2, 1927, 446, 3, 2, 2, 2, 1928, 1929, 9, 34, 2, 2, 1929, 448, 3, 2, 2, 2, 1930, 1931, 9, 35, 2, 2, 1931, 450, 3, 2, 2, 2, 1932, 1933, 9, 36, 2, 2, 1933, 452, 3, 2, 2, 2, 1934, 1935, 9, 37, 2, 2, 1935, 454, 3, 2, 2, 2, 1936, 1937, 9, 38, 2, 2, 1937, 456, 3, 2, 2, 2, 1938, 1939, 9, 39, 2, 2, 1939, 458, 3, 2, 2, 2, 1940, 1941, 9, 40, 2, 2, 1941, 460, 3, 2, 2, 2, 1942, 1943, 9, 41, 2, 2, 1943, 462, 3, 2, 2, 2, 1944, 1945, 9, 42, 2, 2, 1945, 464, 3, 2, 2, 2, 1946, 1947, 9, 43, 2, 2, 1947, 466, 3, 2, 2, 2, 1948, 1949, 9, 44, 2, 2, 1949, 468, 3, 2, 2, 2, 51, 2, 1608, 1614, 1626, 1630, 1632, 1636, 1648, 1654, 1658, 1664, 1669, 1676, 1681, 1687, 1695, 1701, 1704, 1726, 1731, 1736, 1738, 1746, 1748, 1760, 1764, 1768, 1782, 1786, 1790, 1804, 1817, 1823, 1827, 1831, 1835, 1837, 1842, 1847, 1849, 1853, 1858, 1863, 1865, 1871, 1873, 1877, 1884, 1893, 4, 8, 2, 2, 2, 3, 2]
\ No newline at end of file
+[3, 24715, 42794, 33075, 47597, 16764, 15335, 30598, 22884, 2, 209, 1950, 8, 1, 4, 2, 9, 2, 4, 3, 9, 3, 4, 4, 9, 4, 4, 5, 9, 5, 4, 6, 9, 6, 4, 7, 9, 7, 4, 8, 9, 8, 4, 9, 9, 9, 4, 10, 9, 10, 4, 11, 9, 11, 4, 12, 9, 12, 4, 13, 9, 13, 4, 14, 9, 14, 4, 15, 9, 15, 4, 16, 9, 16, 4, 17, 9, 17, 4, 18, 9, 18, 4, 19, 9, 19, 4, 20, 9, 20, 4, 21, 9, 21, 4, 22, 9, 22, 4, 23, 9, 23, 4, 24, 9, 24, 4, 25, 9, 25, 4, 26, 9, 26, 4, 27, 9, 27, 4, 28, 9, 28, 4, 29, 9, 29, 4, 30, 9, 30, 4, 31, 9, 31, 4, 32, 9, 32, 4, 33, 9, 33, 4, 34, 9, 34, 4, 35, 9, 35, 4, 36, 9, 36, 4, 37, 9, 37, 4, 38, 9, 38, 4, 39, 9, 39, 4, 40, 9, 40, 4, 41, 9, 41, 4, 42, 9, 42, 4, 43, 9, 43, 4, 44, 9, 44, 4, 45, 9, 45, 4, 46, 9, 46, 4, 47, 9, 47, 4, 48, 9, 48, 4, 49, 9, 49, 4, 50, 9, 50, 4, 51, 9, 51, 4, 52, 9, 52, 4, 53, 9, 53, 4, 54, 9, 54, 4, 55, 9, 55, 4, 56, 9, 56, 4, 57, 9, 57, 4, 58, 9, 58, 4, 59, 9, 59, 4, 60, 9, 60, 4, 61, 9, 61, 4, 62, 9, 62, 4, 63, 9, 63, 4, 64, 9, 64, 4, 65, 9, 65, 4, 66, 9, 66, 4, 67, 9, 67, 4, 68, 9, 68, 4, 69, 9, 69, 4, 70, 9, 70, 4, 71, 9, 71, 4, 72, 9, 72, 4, 73, 9, 73, 4, 74, 9, 74, 4, 75, 9, 75, 4, 76, 9, 76, 4, 77, 9, 77, 4, 78, 9, 78, 4, 79, 9, 79, 4, 80, 9, 80, 4, 81, 9, 81, 4, 82, 9, 82, 4, 83, 9, 83, 4, 84, 9, 84, 4, 85, 9, 85, 4, 86, 9, 86, 4, 87, 9, 87, 4, 88, 9, 88, 4, 89, 9, 89, 4, 90, 9, 90, 4, 91, 9, 91, 4, 92, 9, 92, 4, 93, 9, 93, 4, 94, 9, 94, 4, 95, 9, 95, 4, 96, 9, 96, 4, 97, 9, 97, 4, 98, 9, 98, 4, 99, 9, 99, 4, 100, 9, 100, 4, 101, 9, 101, 4, 102, 9, 102, 4, 103, 9, 103, 4, 104, 9, 104, 4, 105, 9, 105, 4, 106, 9, 106, 4, 107, 9, 107, 4, 108, 9, 108, 4, 109, 9, 109, 4, 110, 9, 110, 4, 111, 9, 111, 4, 112, 9, 112, 4, 113, 9, 113, 4, 114, 9, 114, 4, 115, 9, 115, 4, 116, 9, 116, 4, 117, 9, 117, 4, 118, 9, 118, 4, 119, 9, 119, 4, 120, 9, 120, 4, 121, 9, 121, 4, 122, 9, 122, 4, 123, 9, 123, 4, 124, 9, 124, 4, 125, 9, 125, 4, 126, 9, 126, 4, 127, 9, 127, 4, 128, 9, 128, 4, 129, 9, 129, 4, 130, 9, 130, 4, 131, 9, 131, 4, 132, 9, 132, 4, 133, 9, 133, 4, 134, 9, 134, 4, 135, 9, 135, 4, 136, 9, 136, 4, 137, 9, 137, 4, 138, 9, 138, 4, 139, 9, 139, 4, 140, 9, 140, 4, 141, 9, 141, 4, 142, 9, 142, 4, 143, 9, 143, 4, 144, 9, 144, 4, 145, 9, 145, 4, 146, 9, 146, 4, 147, 9, 147, 4, 148, 9, 148, 4, 149, 9, 149, 4, 150, 9, 150, 4, 151, 9, 151, 4, 152, 9, 152, 4, 153, 9, 153, 4, 154, 9, 154, 4, 155, 9, 155, 4, 156, 9, 156, 4, 157, 9, 157, 4, 158, 9, 158, 4, 159, 9, 159, 4, 160, 9, 160, 4, 161, 9, 161, 4, 162, 9, 162, 4, 163, 9, 163, 4, 164, 9, 164, 4, 165, 9, 165, 4, 166, 9, 166, 4, 167, 9, 167, 4, 168, 9, 168, 4, 169, 9, 169, 4, 170, 9, 170, 4, 171, 9, 171, 4, 172, 9, 172, 4, 173, 9, 173, 4, 174, 9, 174, 4, 175, 9, 175, 4, 176, 9, 176, 4, 177, 9, 177, 4, 178, 9, 178, 4, 179, 9, 179, 4, 180, 9, 180, 4, 181, 9, 181, 4, 182, 9, 182, 4, 183, 9, 183, 4, 184, 9, 184, 4, 185, 9, 185, 4, 186, 9, 186, 4, 187, 9, 187, 4, 188, 9, 188, 4, 189, 9, 189, 4, 190, 9, 190, 4, 191, 9, 191, 4, 192, 9, 192, 4, 193, 9, 193, 4, 194, 9, 194, 4, 195, 9, 195, 4, 196, 9, 196, 4, 197, 9, 197, 4, 198, 9, 198, 4, 199, 9, 199, 4, 200, 9, 200, 4, 201, 9, 201, 4, 202, 9, 202, 4, 203, 9, 203, 4, 204, 9, 204, 4, 205, 9, 205, 4, 206, 9, 206, 4, 207, 9, 207, 4, 208, 9, 208, 4, 209, 9, 209, 4, 210, 9, 210, 4, 211, 9, 211, 4, 212, 9, 212, 4, 213, 9, 213, 4, 214, 9, 214, 4, 215, 9, 215, 4, 216, 9, 216, 4, 217, 9, 217, 4, 218, 9, 218, 4, 219, 9, 219, 4, 220, 9, 220, 4, 221, 9, 221, 4, 222, 9, 222, 4, 223, 9, 223, 4, 224, 9, 224, 4, 225, 9, 225, 4, 226, 9, 226, 4, 227, 9, 227, 4, 228, 9, 228, 4, 229, 9, 229, 4, 230, 9, 230, 4, 231, 9, 231, 4, 232, 9, 232, 4, 233, 9, 233, 4, 234, 9, 234, 3, 2, 3, 2, 3, 3, 3, 3, 3, 4, 3, 4, 3, 5, 3, 5, 3, 6, 3, 6, 3, 7, 3, 7, 3, 8, 3, 8, 3, 9, 3, 9, 3, 10, 3, 10, 3, 11, 3, 11, 3, 12, 3, 12, 3, 13, 3, 13, 3, 14, 3, 14, 3, 15, 3, 15, 3, 16, 3, 16, 3, 17, 3, 17, 3, 18, 3, 18, 3, 19, 3, 19, 3, 19, 3, 20, 3, 20, 3, 20, 3, 21, 3, 21, 3, 22, 3, 22, 3, 22, 3, 23, 3, 23, 3, 24, 3, 24, 3, 25, 3, 25, 3, 25, 3, 26, 3, 26, 3, 26, 3, 27, 3, 27, 3, 28, 3, 28, 3, 28, 3, 29, 3, 29, 3, 29, 3, 29, 3, 29, 3, 30, 3, 30, 3, 30, 3, 30, 3, 30, 3, 30, 3, 31, 3, 31, 3, 31, 3, 31, 3, 32, 3, 32, 3, 32, 3, 32, 3, 32, 3, 33, 3, 33, 3, 33, 3, 33, 3, 33, 3, 33, 3, 34, 3, 34, 3, 34, 3, 35, 3, 35, 3, 35, 3, 35, 3, 36, 3, 36, 3, 36, 3, 36, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 37, 3, 38, 3, 38, 3, 38, 3, 39, 3, 39, 3, 39, 3, 39, 3, 39, 3, 39, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 40, 3, 41, 3, 41, 3, 41, 3, 41, 3, 41, 3, 41, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 42, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 43, 3, 44, 3, 44, 3, 44, 3, 44, 3, 44, 3, 44, 3, 45, 3, 45, 3, 45, 3, 46, 3, 46, 3, 46, 3, 46, 3, 46, 3, 47, 3, 47, 3, 47, 3, 47, 3, 47, 3, 48, 3, 48, 3, 48, 3, 48, 3, 48, 3, 48, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 49, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 50, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 51, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 52, 3, 53, 3, 53, 3, 53, 3, 53, 3, 54, 3, 54, 3, 54, 3, 54, 3, 54, 3, 54, 3, 55, 3, 55, 3, 55, 3, 55, 3, 55, 3, 55, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 56, 3, 57, 3, 57, 3, 57, 3, 57, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 58, 3, 59, 3, 59, 3, 59, 3, 59, 3, 59, 3, 60, 3, 60, 3, 60, 3, 60, 3, 60, 3, 61, 3, 61, 3, 61, 3, 61, 3, 61, 3, 61, 3, 62, 3, 62, 3, 62, 3, 62, 3, 62, 3, 63, 3, 63, 3, 63, 3, 64, 3, 64, 3, 64, 3, 64, 3, 65, 3, 65, 3, 65, 3, 65, 3, 66, 3, 66, 3, 66, 3, 66, 3, 66, 3, 67, 3, 67, 3, 67, 3, 68, 3, 68, 3, 68, 3, 68, 3, 68, 3, 69, 3, 69, 3, 69, 3, 69, 3, 69, 3, 70, 3, 70, 3, 70, 3, 70, 3, 70, 3, 71, 3, 71, 3, 71, 3, 71, 3, 71, 3, 71, 3, 72, 3, 72, 3, 72, 3, 72, 3, 72, 3, 72, 3, 73, 3, 73, 3, 73, 3, 73, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 74, 3, 75, 3, 75, 3, 75, 3, 75, 3, 75, 3, 75, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 76, 3, 77, 3, 77, 3, 77, 3, 77, 3, 77, 3, 77, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 78, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 79, 3, 80, 3, 80, 3, 80, 3, 80, 3, 81, 3, 81, 3, 81, 3, 81, 3, 81, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 82, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 83, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 84, 3, 85, 3, 85, 3, 85, 3, 85, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 86, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 87, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 88, 3, 89, 3, 89, 3, 89, 3, 89, 3, 89, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 90, 3, 91, 3, 91, 3, 91, 3, 91, 3, 91, 3, 92, 3, 92, 3, 92, 3, 92, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 93, 3, 94, 3, 94, 3, 94, 3, 94, 3, 94, 3, 94, 3, 95, 3, 95, 3, 95, 3, 95, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 96, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 97, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 98, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 99, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 100, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 101, 3, 102, 3, 102, 3, 102, 3, 102, 3, 102, 3, 102, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 103, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 104, 3, 105, 3, 105, 3, 105, 3, 105, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 106, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 107, 3, 108, 3, 108, 3, 108, 3, 108, 3, 108, 3, 108, 3, 109, 3, 109, 3, 109, 3, 109, 3, 109, 3, 109, 3, 110, 3, 110, 3, 110, 3, 110, 3, 110, 3, 110, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 111, 3, 112, 3, 112, 3, 112, 3, 112, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 113, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 114, 3, 115, 3, 115, 3, 115, 3, 115, 3, 115, 3, 115, 3, 116, 3, 116, 3, 116, 3, 116, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 117, 3, 118, 3, 118, 3, 118, 3, 118, 3, 118, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 119, 3, 120, 3, 120, 3, 120, 3, 120, 3, 120, 3, 120, 3, 121, 3, 121, 3, 121, 3, 122, 3, 122, 3, 122, 3, 122, 3, 122, 3, 122, 3, 123, 3, 123, 3, 123, 3, 123, 3, 123, 3, 124, 3, 124, 3, 124, 3, 124, 3, 124, 3, 124, 3, 125, 3, 125, 3, 125, 3, 125, 3, 125, 3, 125, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 126, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 127, 3, 128, 3, 128, 3, 128, 3, 128, 3, 128, 3, 128, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 129, 3, 130, 3, 130, 3, 130, 3, 130, 3, 130, 3, 130, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 131, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 132, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 133, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 134, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 135, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 136, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 137, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 138, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 139, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 140, 3, 141, 3, 141, 3, 141, 3, 141, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 142, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 143, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 144, 3, 145, 3, 145, 3, 145, 3, 146, 3, 146, 3, 146, 3, 146, 3, 146, 3, 146, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 147, 3, 148, 3, 148, 3, 148, 3, 148, 3, 149, 3, 149, 3, 149, 3, 149, 3, 149, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 150, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 151, 3, 152, 3, 152, 3, 152, 3, 152, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 153, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 154, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 155, 3, 156, 3, 156, 3, 156, 3, 156, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 157, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 158, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 159, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 160, 3, 161, 3, 161, 3, 161, 3, 161, 3, 161, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 162, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 163, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 164, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 165, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 166, 3, 167, 3, 167, 3, 167, 3, 167, 3, 168, 3, 168, 3, 168, 3, 168, 3, 168, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 169, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 170, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 171, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 172, 3, 173, 3, 173, 7, 173, 1607, 10, 173, 12, 173, 14, 173, 1610, 11, 173, 3, 173, 3, 173, 3, 174, 5, 174, 1615, 10, 174, 3, 174, 3, 174, 3, 175, 3, 175, 3, 175, 3, 176, 3, 176, 3, 176, 3, 176, 3, 176, 5, 176, 1627, 10, 176, 3, 176, 3, 176, 7, 176, 1631, 10, 176, 12, 176, 14, 176, 1634, 11, 176, 3, 176, 5, 176, 1637, 10, 176, 3, 177, 3, 177, 3, 177, 3, 178, 3, 178, 3, 178, 3, 179, 3, 179, 6, 179, 1647, 10, 179, 13, 179, 14, 179, 1648, 3, 179, 3, 179, 6, 179, 1653, 10, 179, 13, 179, 14, 179, 1654, 7, 179, 1657, 10, 179, 12, 179, 14, 179, 1660, 11, 179, 3, 180, 6, 180, 1663, 10, 180, 13, 180, 14, 180, 1664, 3, 181, 7, 181, 1668, 10, 181, 12, 181, 14, 181, 1671, 11, 181, 3, 181, 3, 181, 6, 181, 1675, 10, 181, 13, 181, 14, 181, 1676, 3, 182, 6, 182, 1680, 10, 182, 13, 182, 14, 182, 1681, 3, 182, 3, 182, 7, 182, 1686, 10, 182, 12, 182, 14, 182, 1689, 11, 182, 3, 182, 3, 182, 3, 182, 6, 182, 1694, 10, 182, 13, 182, 14, 182, 1695, 3, 182, 3, 182, 6, 182, 1700, 10, 182, 13, 182, 14, 182, 1701, 3, 182, 5, 182, 1705, 10, 182, 3, 183, 3, 183, 3, 183, 3, 184, 3, 184, 3, 184, 3, 185, 3, 185, 3, 185, 3, 186, 3, 186, 3, 186, 3, 187, 3, 187, 3, 187, 3, 188, 3, 188, 3, 188, 3, 189, 3, 189, 5, 189, 1727, 10, 189, 3, 189, 6, 189, 1730, 10, 189, 13, 189, 14, 189, 1731, 3, 190, 3, 190, 3, 190, 7, 190, 1737, 10, 190, 12, 190, 14, 190, 1740, 11, 190, 3, 190, 3, 190, 3, 191, 3, 191, 3, 191, 7, 191, 1747, 10, 191, 12, 191, 14, 191, 1750, 11, 191, 3, 191, 3, 191, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 192, 5, 192, 1761, 10, 192, 3, 192, 3, 192, 5, 192, 1765, 10, 192, 7, 192, 1767, 10, 192, 12, 192, 14, 192, 1770, 11, 192, 3, 192, 3, 192, 3, 192, 3, 192, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 193, 5, 193, 1783, 10, 193, 3, 193, 3, 193, 5, 193, 1787, 10, 193, 7, 193, 1789, 10, 193, 12, 193, 14, 193, 1792, 11, 193, 3, 193, 3, 193, 3, 193, 3, 193, 3, 194, 3, 194, 3, 194, 3, 195, 3, 195, 7, 195, 1803, 10, 195, 12, 195, 14, 195, 1806, 11, 195, 3, 195, 3, 195, 3, 196, 3, 196, 3, 196, 3, 196, 3, 197, 3, 197, 7, 197, 1816, 10, 197, 12, 197, 14, 197, 1819, 11, 197, 3, 197, 3, 197, 3, 198, 5, 198, 1824, 10, 198, 3, 199, 3, 199, 5, 199, 1828, 10, 199, 3, 200, 3, 200, 5, 200, 1832, 10, 200, 3, 200, 3, 200, 7, 200, 1836, 10, 200, 12, 200, 14, 200, 1839, 11, 200, 3, 201, 3, 201, 5, 201, 1843, 10, 201, 3, 202, 3, 202, 3, 202, 7, 202, 1848, 10, 202, 12, 202, 14, 202, 1851, 11, 202, 3, 202, 5, 202, 1854, 10, 202, 3, 203, 3, 203, 3, 203, 5, 203, 1859, 10, 203, 3, 203, 3, 203, 3, 203, 7, 203, 1864, 10, 203, 12, 203, 14, 203, 1867, 11, 203, 3, 203, 3, 203, 3, 203, 5, 203, 1872, 10, 203, 5, 203, 1874, 10, 203, 3, 204, 3, 204, 5, 204, 1878, 10, 204, 3, 205, 3, 205, 3, 205, 3, 205, 3, 206, 5, 206, 1885, 10, 206, 3, 207, 3, 207, 3, 207, 3, 208, 3, 208, 7, 208, 1892, 10, 208, 12, 208, 14, 208, 1895, 11, 208, 3, 208, 3, 208, 3, 209, 3, 209, 3, 210, 3, 210, 3, 211, 3, 211, 3, 212, 3, 212, 3, 213, 3, 213, 3, 214, 3, 214, 3, 215, 3, 215, 3, 216, 3, 216, 3, 217, 3, 217, 3, 218, 3, 218, 3, 219, 3, 219, 3, 220, 3, 220, 3, 221, 3, 221, 3, 222, 3, 222, 3, 223, 3, 223, 3, 224, 3, 224, 3, 225, 3, 225, 3, 226, 3, 226, 3, 227, 3, 227, 3, 228, 3, 228, 3, 229, 3, 229, 3, 230, 3, 230, 3, 231, 3, 231, 3, 232, 3, 232, 3, 233, 3, 233, 3, 234, 3, 234, 2, 2, 235, 3, 3, 5, 4, 7, 5, 9, 6, 11, 7, 13, 8, 15, 9, 17, 10, 19, 11, 21, 12, 23, 13, 25, 14, 27, 15, 29, 16, 31, 17, 33, 18, 35, 19, 37, 20, 39, 21, 41, 22, 43, 23, 45, 24, 47, 25, 49, 26, 51, 27, 53, 28, 55, 29, 57, 30, 59, 31, 61, 32, 63, 33, 65, 34, 67, 35, 69, 36, 71, 37, 73, 38, 75, 39, 77, 40, 79, 41, 81, 42, 83, 43, 85, 44, 87, 45, 89, 46, 91, 47, 93, 48, 95, 49, 97, 50, 99, 51, 101, 52, 103, 53, 105, 54, 107, 55, 109, 56, 111, 57, 113, 58, 115, 59, 117, 60, 119, 61, 121, 62, 123, 63, 125, 64, 127, 65, 129, 66, 131, 67, 133, 68, 135, 69, 137, 70, 139, 71, 141, 72, 143, 73, 145, 74, 147, 75, 149, 76, 151, 77, 153, 78, 155, 79, 157, 80, 159, 81, 161, 82, 163, 83, 165, 84, 167, 85, 169, 86, 171, 87, 173, 88, 175, 89, 177, 90, 179, 91, 181, 92, 183, 93, 185, 94, 187, 95, 189, 96, 191, 97, 193, 98, 195, 99, 197, 100, 199, 101, 201, 102, 203, 103, 205, 104, 207, 105, 209, 106, 211, 107, 213, 108, 215, 109, 217, 110, 219, 111, 221, 112, 223, 113, 225, 114, 227, 115, 229, 116, 231, 117, 233, 118, 235, 119, 237, 120, 239, 121, 241, 122, 243, 123, 245, 124, 247, 125, 249, 126, 251, 127, 253, 128, 255, 129, 257, 130, 259, 131, 261, 132, 263, 133, 265, 134, 267, 135, 269, 136, 271, 137, 273, 138, 275, 139, 277, 140, 279, 141, 281, 142, 283, 143, 285, 144, 287, 145, 289, 146, 291, 147, 293, 148, 295, 149, 297, 150, 299, 151, 301, 152, 303, 153, 305, 154, 307, 155, 309, 156, 311, 157, 313, 158, 315, 159, 317, 160, 319, 161, 321, 162, 323, 163, 325, 164, 327, 165, 329, 166, 331, 167, 333, 168, 335, 169, 337, 170, 339, 171, 341, 172, 343, 173, 345, 174, 347, 175, 349, 176, 351, 177, 353, 178, 355, 179, 357, 180, 359, 181, 361, 182, 363, 183, 365, 184, 367, 185, 369, 186, 371, 187, 373, 188, 375, 189, 377, 190, 379, 191, 381, 192, 383, 193, 385, 194, 387, 195, 389, 196, 391, 197, 393, 198, 395, 199, 397, 200, 399, 201, 401, 202, 403, 203, 405, 204, 407, 205, 409, 206, 411, 207, 413, 208, 415, 209, 417, 2, 419, 2, 421, 2, 423, 2, 425, 2, 427, 2, 429, 2, 431, 2, 433, 2, 435, 2, 437, 2, 439, 2, 441, 2, 443, 2, 445, 2, 447, 2, 449, 2, 451, 2, 453, 2, 455, 2, 457, 2, 459, 2, 461, 2, 463, 2, 465, 2, 467, 2, 3, 2, 45, 10, 2, 2, 34, 36, 36, 62, 62, 64, 64, 94, 94, 96, 96, 98, 98, 125, 127, 3, 2, 50, 59, 4, 2, 67, 92, 99, 124, 5, 2, 50, 59, 67, 92, 99, 124, 4, 2, 71, 71, 103, 103, 4, 2, 45, 45, 47, 47, 6, 2, 12, 12, 15, 15, 41, 41, 94, 94, 6, 2, 12, 12, 15, 15, 36, 36, 94, 94, 4, 2, 41, 41, 94, 94, 4, 2, 36, 36, 94, 94, 10, 2, 36, 36, 41, 41, 94, 94, 100, 100, 104, 104, 112, 112, 116, 116, 118, 118, 5, 2, 11, 12, 15, 15, 34, 34, 6, 2, 50, 59, 185, 185, 770, 881, 8257, 8258, 7, 2, 47, 47, 50, 59, 185, 185, 770, 881, 8257, 8258, 4, 2, 48, 48, 60, 60, 5, 2, 50, 59, 67, 72, 99, 104, 9, 2, 35, 35, 37, 49, 61, 61, 63, 63, 65, 66, 97, 97, 128, 128, 4, 2, 12, 12, 15, 15, 4, 2, 67, 67, 99, 99, 4, 2, 68, 68, 100, 100, 4, 2, 69, 69, 101, 101, 4, 2, 70, 70, 102, 102, 4, 2, 72, 72, 104, 104, 4, 2, 73, 73, 105, 105, 4, 2, 74, 74, 106, 106, 4, 2, 75, 75, 107, 107, 4, 2, 76, 76, 108, 108, 4, 2, 77, 77, 109, 109, 4, 2, 78, 78, 110, 110, 4, 2, 79, 79, 111, 111, 4, 2, 80, 80, 112, 112, 4, 2, 81, 81, 113, 113, 4, 2, 82, 82, 114, 114, 4, 2, 83, 83, 115, 115, 4, 2, 84, 84, 116, 116, 4, 2, 85, 85, 117, 117, 4, 2, 86, 86, 118, 118, 4, 2, 87, 87, 119, 119, 4, 2, 88, 88, 120, 120, 4, 2, 89, 89, 121, 121, 4, 2, 90, 90, 122, 122, 4, 2, 91, 91, 123, 123, 4, 2, 92, 92, 124, 124, 3, 16, 2, 67, 2, 92, 2, 99, 2, 124, 2, 194, 2, 216, 2, 218, 2, 248, 2, 250, 2, 769, 2, 882, 2, 895, 2, 897, 2, 8193, 2, 8206, 2, 8207, 2, 8306, 2, 8593, 2, 11266, 2, 12273, 2, 12291, 2, 55297, 2, 63746, 2, 64977, 2, 65010, 2, 65535, 2, 2, 3, 1, 16, 1975, 2, 3, 3, 2, 2, 2, 2, 5, 3, 2, 2, 2, 2, 7, 3, 2, 2, 2, 2, 9, 3, 2, 2, 2, 2, 11, 3, 2, 2, 2, 2, 13, 3, 2, 2, 2, 2, 15, 3, 2, 2, 2, 2, 17, 3, 2, 2, 2, 2, 19, 3, 2, 2, 2, 2, 21, 3, 2, 2, 2, 2, 23, 3, 2, 2, 2, 2, 25, 3, 2, 2, 2, 2, 27, 3, 2, 2, 2, 2, 29, 3, 2, 2, 2, 2, 31, 3, 2, 2, 2, 2, 33, 3, 2, 2, 2, 2, 35, 3, 2, 2, 2, 2, 37, 3, 2, 2, 2, 2, 39, 3, 2, 2, 2, 2, 41, 3, 2, 2, 2, 2, 43, 3, 2, 2, 2, 2, 45, 3, 2, 2, 2, 2, 47, 3, 2, 2, 2, 2, 49, 3, 2, 2, 2, 2, 51, 3, 2, 2, 2, 2, 53, 3, 2, 2, 2, 2, 55, 3, 2, 2, 2, 2, 57, 3, 2, 2, 2, 2, 59, 3, 2, 2, 2, 2, 61, 3, 2, 2, 2, 2, 63, 3, 2, 2, 2, 2, 65, 3, 2, 2, 2, 2, 67, 3, 2, 2, 2, 2, 69, 3, 2, 2, 2, 2, 71, 3, 2, 2, 2, 2, 73, 3, 2, 2, 2, 2, 75, 3, 2, 2, 2, 2, 77, 3, 2, 2, 2, 2, 79, 3, 2, 2, 2, 2, 81, 3, 2, 2, 2, 2, 83, 3, 2, 2, 2, 2, 85, 3, 2, 2, 2, 2, 87, 3, 2, 2, 2, 2, 89, 3, 2, 2, 2, 2, 91, 3, 2, 2, 2, 2, 93, 3, 2, 2, 2, 2, 95, 3, 2, 2, 2, 2, 97, 3, 2, 2, 2, 2, 99, 3, 2, 2, 2, 2, 101, 3, 2, 2, 2, 2, 103, 3, 2, 2, 2, 2, 105, 3, 2, 2, 2, 2, 107, 3, 2, 2, 2, 2, 109, 3, 2, 2, 2, 2, 111, 3, 2, 2, 2, 2, 113, 3, 2, 2, 2, 2, 115, 3, 2, 2, 2, 2, 117, 3, 2, 2, 2, 2, 119, 3, 2, 2, 2, 2, 121, 3, 2, 2, 2, 2, 123, 3, 2, 2, 2, 2, 125, 3, 2, 2, 2, 2, 127, 3, 2, 2, 2, 2, 129, 3, 2, 2, 2, 2, 131, 3, 2, 2, 2, 2, 133, 3, 2, 2, 2, 2, 135, 3, 2, 2, 2, 2, 137, 3, 2, 2, 2, 2, 139, 3, 2, 2, 2, 2, 141, 3, 2, 2, 2, 2, 143, 3, 2, 2, 2, 2, 145, 3, 2, 2, 2, 2, 147, 3, 2, 2, 2, 2, 149, 3, 2, 2, 2, 2, 151, 3, 2, 2, 2, 2, 153, 3, 2, 2, 2, 2, 155, 3, 2, 2, 2, 2, 157, 3, 2, 2, 2, 2, 159, 3, 2, 2, 2, 2, 161, 3, 2, 2, 2, 2, 163, 3, 2, 2, 2, 2, 165, 3, 2, 2, 2, 2, 167, 3, 2, 2, 2, 2, 169, 3, 2, 2, 2, 2, 171, 3, 2, 2, 2, 2, 173, 3, 2, 2, 2, 2, 175, 3, 2, 2, 2, 2, 177, 3, 2, 2, 2, 2, 179, 3, 2, 2, 2, 2, 181, 3, 2, 2, 2, 2, 183, 3, 2, 2, 2, 2, 185, 3, 2, 2, 2, 2, 187, 3, 2, 2, 2, 2, 189, 3, 2, 2, 2, 2, 191, 3, 2, 2, 2, 2, 193, 3, 2, 2, 2, 2, 195, 3, 2, 2, 2, 2, 197, 3, 2, 2, 2, 2, 199, 3, 2, 2, 2, 2, 201, 3, 2, 2, 2, 2, 203, 3, 2, 2, 2, 2, 205, 3, 2, 2, 2, 2, 207, 3, 2, 2, 2, 2, 209, 3, 2, 2, 2, 2, 211, 3, 2, 2, 2, 2, 213, 3, 2, 2, 2, 2, 215, 3, 2, 2, 2, 2, 217, 3, 2, 2, 2, 2, 219, 3, 2, 2, 2, 2, 221, 3, 2, 2, 2, 2, 223, 3, 2, 2, 2, 2, 225, 3, 2, 2, 2, 2, 227, 3, 2, 2, 2, 2, 229, 3, 2, 2, 2, 2, 231, 3, 2, 2, 2, 2, 233, 3, 2, 2, 2, 2, 235, 3, 2, 2, 2, 2, 237, 3, 2, 2, 2, 2, 239, 3, 2, 2, 2, 2, 241, 3, 2, 2, 2, 2, 243, 3, 2, 2, 2, 2, 245, 3, 2, 2, 2, 2, 247, 3, 2, 2, 2, 2, 249, 3, 2, 2, 2, 2, 251, 3, 2, 2, 2, 2, 253, 3, 2, 2, 2, 2, 255, 3, 2, 2, 2, 2, 257, 3, 2, 2, 2, 2, 259, 3, 2, 2, 2, 2, 261, 3, 2, 2, 2, 2, 263, 3, 2, 2, 2, 2, 265, 3, 2, 2, 2, 2, 267, 3, 2, 2, 2, 2, 269, 3, 2, 2, 2, 2, 271, 3, 2, 2, 2, 2, 273, 3, 2, 2, 2, 2, 275, 3, 2, 2, 2, 2, 277, 3, 2, 2, 2, 2, 279, 3, 2, 2, 2, 2, 281, 3, 2, 2, 2, 2, 283, 3, 2, 2, 2, 2, 285, 3, 2, 2, 2, 2, 287, 3, 2, 2, 2, 2, 289, 3, 2, 2, 2, 2, 291, 3, 2, 2, 2, 2, 293, 3, 2, 2, 2, 2, 295, 3, 2, 2, 2, 2, 297, 3, 2, 2, 2, 2, 299, 3, 2, 2, 2, 2, 301, 3, 2, 2, 2, 2, 303, 3, 2, 2, 2, 2, 305, 3, 2, 2, 2, 2, 307, 3, 2, 2, 2, 2, 309, 3, 2, 2, 2, 2, 311, 3, 2, 2, 2, 2, 313, 3, 2, 2, 2, 2, 315, 3, 2, 2, 2, 2, 317, 3, 2, 2, 2, 2, 319, 3, 2, 2, 2, 2, 321, 3, 2, 2, 2, 2, 323, 3, 2, 2, 2, 2, 325, 3, 2, 2, 2, 2, 327, 3, 2, 2, 2, 2, 329, 3, 2, 2, 2, 2, 331, 3, 2, 2, 2, 2, 333, 3, 2, 2, 2, 2, 335, 3, 2, 2, 2, 2, 337, 3, 2, 2, 2, 2, 339, 3, 2, 2, 2, 2, 341, 3, 2, 2, 2, 2, 343, 3, 2, 2, 2, 2, 345, 3, 2, 2, 2, 2, 347, 3, 2, 2, 2, 2, 349, 3, 2, 2, 2, 2, 351, 3, 2, 2, 2, 2, 353, 3, 2, 2, 2, 2, 355, 3, 2, 2, 2, 2, 357, 3, 2, 2, 2, 2, 359, 3, 2, 2, 2, 2, 361, 3, 2, 2, 2, 2, 363, 3, 2, 2, 2, 2, 365, 3, 2, 2, 2, 2, 367, 3, 2, 2, 2, 2, 369, 3, 2, 2, 2, 2, 371, 3, 2, 2, 2, 2, 373, 3, 2, 2, 2, 2, 375, 3, 2, 2, 2, 2, 377, 3, 2, 2, 2, 2, 379, 3, 2, 2, 2, 2, 381, 3, 2, 2, 2, 2, 383, 3, 2, 2, 2, 2, 385, 3, 2, 2, 2, 2, 387, 3, 2, 2, 2, 2, 389, 3, 2, 2, 2, 2, 391, 3, 2, 2, 2, 2, 393, 3, 2, 2, 2, 2, 395, 3, 2, 2, 2, 2, 397, 3, 2, 2, 2, 2, 399, 3, 2, 2, 2, 2, 401, 3, 2, 2, 2, 2, 403, 3, 2, 2, 2, 2, 405, 3, 2, 2, 2, 2, 407, 3, 2, 2, 2, 2, 409, 3, 2, 2, 2, 2, 411, 3, 2, 2, 2, 2, 413, 3, 2, 2, 2, 2, 415, 3, 2, 2, 2, 3, 469, 3, 2, 2, 2, 5, 471, 3, 2, 2, 2, 7, 473, 3, 2, 2, 2, 9, 475, 3, 2, 2, 2, 11, 477, 3, 2, 2, 2, 13, 479, 3, 2, 2, 2, 15, 481, 3, 2, 2, 2, 17, 483, 3, 2, 2, 2, 19, 485, 3, 2, 2, 2, 21, 487, 3, 2, 2, 2, 23, 489, 3, 2, 2, 2, 25, 491, 3, 2, 2, 2, 27, 493, 3, 2, 2, 2, 29, 495, 3, 2, 2, 2, 31, 497, 3, 2, 2, 2, 33, 499, 3, 2, 2, 2, 35, 501, 3, 2, 2, 2, 37, 503, 3, 2, 2, 2, 39, 506, 3, 2, 2, 2, 41, 509, 3, 2, 2, 2, 43, 511, 3, 2, 2, 2, 45, 514, 3, 2, 2, 2, 47, 516, 3, 2, 2, 2, 49, 518, 3, 2, 2, 2, 51, 521, 3, 2, 2, 2, 53, 524, 3, 2, 2, 2, 55, 526, 3, 2, 2, 2, 57, 529, 3, 2, 2, 2, 59, 534, 3, 2, 2, 2, 61, 540, 3, 2, 2, 2, 63, 544, 3, 2, 2, 2, 65, 549, 3, 2, 2, 2, 67, 555, 3, 2, 2, 2, 69, 558, 3, 2, 2, 2, 71, 562, 3, 2, 2, 2, 73, 566, 3, 2, 2, 2, 75, 573, 3, 2, 2, 2, 77, 576, 3, 2, 2, 2, 79, 582, 3, 2, 2, 2, 81, 589, 3, 2, 2, 2, 83, 595, 3, 2, 2, 2, 85, 603, 3, 2, 2, 2, 87, 610, 3, 2, 2, 2, 89, 616, 3, 2, 2, 2, 91, 619, 3, 2, 2, 2, 93, 624, 3, 2, 2, 2, 95, 629, 3, 2, 2, 2, 97, 635, 3, 2, 2, 2, 99, 644, 3, 2, 2, 2, 101, 654, 3, 2, 2, 2, 103, 662, 3, 2, 2, 2, 105, 672, 3, 2, 2, 2, 107, 676, 3, 2, 2, 2, 109, 682, 3, 2, 2, 2, 111, 688, 3, 2, 2, 2, 113, 697, 3, 2, 2, 2, 115, 701, 3, 2, 2, 2, 117, 709, 3, 2, 2, 2, 119, 714, 3, 2, 2, 2, 121, 719, 3, 2, 2, 2, 123, 725, 3, 2, 2, 2, 125, 730, 3, 2, 2, 2, 127, 733, 3, 2, 2, 2, 129, 737, 3, 2, 2, 2, 131, 741, 3, 2, 2, 2, 133, 746, 3, 2, 2, 2, 135, 749, 3, 2, 2, 2, 137, 754, 3, 2, 2, 2, 139, 759, 3, 2, 2, 2, 141, 764, 3, 2, 2, 2, 143, 770, 3, 2, 2, 2, 145, 776, 3, 2, 2, 2, 147, 780, 3, 2, 2, 2, 149, 787, 3, 2, 2, 2, 151, 793, 3, 2, 2, 2, 153, 801, 3, 2, 2, 2, 155, 807, 3, 2, 2, 2, 157, 816, 3, 2, 2, 2, 159, 826, 3, 2, 2, 2, 161, 830, 3, 2, 2, 2, 163, 835, 3, 2, 2, 2, 165, 842, 3, 2, 2, 2, 167, 851, 3, 2, 2, 2, 169, 861, 3, 2, 2, 2, 171, 865, 3, 2, 2, 2, 173, 875, 3, 2, 2, 2, 175, 884, 3, 2, 2, 2, 177, 891, 3, 2, 2, 2, 179, 896, 3, 2, 2, 2, 181, 903, 3, 2, 2, 2, 183, 908, 3, 2, 2, 2, 185, 912, 3, 2, 2, 2, 187, 919, 3, 2, 2, 2, 189, 925, 3, 2, 2, 2, 191, 929, 3, 2, 2, 2, 193, 937, 3, 2, 2, 2, 195, 944, 3, 2, 2, 2, 197, 953, 3, 2, 2, 2, 199, 960, 3, 2, 2, 2, 201, 968, 3, 2, 2, 2, 203, 976, 3, 2, 2, 2, 205, 982, 3, 2, 2, 2, 207, 989, 3, 2, 2, 2, 209, 999, 3, 2, 2, 2, 211, 1003, 3, 2, 2, 2, 213, 1010, 3, 2, 2, 2, 215, 1018, 3, 2, 2, 2, 217, 1024, 3, 2, 2, 2, 219, 1030, 3, 2, 2, 2, 221, 1036, 3, 2, 2, 2, 223, 1044, 3, 2, 2, 2, 225, 1048, 3, 2, 2, 2, 227, 1057, 3, 2, 2, 2, 229, 1064, 3, 2, 2, 2, 231, 1070, 3, 2, 2, 2, 233, 1074, 3, 2, 2, 2, 235, 1082, 3, 2, 2, 2, 237, 1087, 3, 2, 2, 2, 239, 1099, 3, 2, 2, 2, 241, 1105, 3, 2, 2, 2, 243, 1108, 3, 2, 2, 2, 245, 1114, 3, 2, 2, 2, 247, 1119, 3, 2, 2, 2, 249, 1125, 3, 2, 2, 2, 251, 1131, 3, 2, 2, 2, 253, 1140, 3, 2, 2, 2, 255, 1147, 3, 2, 2, 2, 257, 1153, 3, 2, 2, 2, 259, 1162, 3, 2, 2, 2, 261, 1168, 3, 2, 2, 2, 263, 1175, 3, 2, 2, 2, 265, 1191, 3, 2, 2, 2, 267, 1210, 3, 2, 2, 2, 269, 1220, 3, 2, 2, 2, 271, 1233, 3, 2, 2, 2, 273, 1246, 3, 2, 2, 2, 275, 1262, 3, 2, 2, 2, 277, 1276, 3, 2, 2, 2, 279, 1290, 3, 2, 2, 2, 281, 1308, 3, 2, 2, 2, 283, 1312, 3, 2, 2, 2, 285, 1329, 3, 2, 2, 2, 287, 1349, 3, 2, 2, 2, 289, 1358, 3, 2, 2, 2, 291, 1361, 3, 2, 2, 2, 293, 1367, 3, 2, 2, 2, 295, 1375, 3, 2, 2, 2, 297, 1379, 3, 2, 2, 2, 299, 1384, 3, 2, 2, 2, 301, 1392, 3, 2, 2, 2, 303, 1402, 3, 2, 2, 2, 305, 1406, 3, 2, 2, 2, 307, 1419, 3, 2, 2, 2, 309, 1432, 3, 2, 2, 2, 311, 1442, 3, 2, 2, 2, 313, 1446, 3, 2, 2, 2, 315, 1456, 3, 2, 2, 2, 317, 1469, 3, 2, 2, 2, 319, 1487, 3, 2, 2, 2, 321, 1495, 3, 2, 2, 2, 323, 1500, 3, 2, 2, 2, 325, 1509, 3, 2, 2, 2, 327, 1521, 3, 2, 2, 2, 329, 1533, 3, 2, 2, 2, 331, 1546, 3, 2, 2, 2, 333, 1561, 3, 2, 2, 2, 335, 1565, 3, 2, 2, 2, 337, 1570, 3, 2, 2, 2, 339, 1577, 3, 2, 2, 2, 341, 1584, 3, 2, 2, 2, 343, 1591, 3, 2, 2, 2, 345, 1604, 3, 2, 2, 2, 347, 1614, 3, 2, 2, 2, 349, 1618, 3, 2, 2, 2, 351, 1621, 3, 2, 2, 2, 353, 1638, 3, 2, 2, 2, 355, 1641, 3, 2, 2, 2, 357, 1644, 3, 2, 2, 2, 359, 1662, 3, 2, 2, 2, 361, 1669, 3, 2, 2, 2, 363, 1704, 3, 2, 2, 2, 365, 1706, 3, 2, 2, 2, 367, 1709, 3, 2, 2, 2, 369, 1712, 3, 2, 2, 2, 371, 1715, 3, 2, 2, 2, 373, 1718, 3, 2, 2, 2, 375, 1721, 3, 2, 2, 2, 377, 1724, 3, 2, 2, 2, 379, 1733, 3, 2, 2, 2, 381, 1743, 3, 2, 2, 2, 383, 1753, 3, 2, 2, 2, 385, 1775, 3, 2, 2, 2, 387, 1797, 3, 2, 2, 2, 389, 1800, 3, 2, 2, 2, 391, 1809, 3, 2, 2, 2, 393, 1813, 3, 2, 2, 2, 395, 1823, 3, 2, 2, 2, 397, 1827, 3, 2, 2, 2, 399, 1831, 3, 2, 2, 2, 401, 1842, 3, 2, 2, 2, 403, 1844, 3, 2, 2, 2, 405, 1858, 3, 2, 2, 2, 407, 1877, 3, 2, 2, 2, 409, 1879, 3, 2, 2, 2, 411, 1884, 3, 2, 2, 2, 413, 1886, 3, 2, 2, 2, 415, 1889, 3, 2, 2, 2, 417, 1898, 3, 2, 2, 2, 419, 1900, 3, 2, 2, 2, 421, 1902, 3, 2, 2, 2, 423, 1904, 3, 2, 2, 2, 425, 1906, 3, 2, 2, 2, 427, 1908, 3, 2, 2, 2, 429, 1910, 3, 2, 2, 2, 431, 1912, 3, 2, 2, 2, 433, 1914, 3, 2, 2, 2, 435, 1916, 3, 2, 2, 2, 437, 1918, 3, 2, 2, 2, 439, 1920, 3, 2, 2, 2, 441, 1922, 3, 2, 2, 2, 443, 1924, 3, 2, 2, 2, 445, 1926, 3, 2, 2, 2, 447, 1928, 3, 2, 2, 2, 449, 1930, 3, 2, 2, 2, 451, 1932, 3, 2, 2, 2, 453, 1934, 3, 2, 2, 2, 455, 1936, 3, 2, 2, 2, 457, 1938, 3, 2, 2, 2, 459, 1940, 3, 2, 2, 2, 461, 1942, 3, 2, 2, 2, 463, 1944, 3, 2, 2, 2, 465, 1946, 3, 2, 2, 2, 467, 1948, 3, 2, 2, 2, 469, 470, 7, 44, 2, 2, 470, 4, 3, 2, 2, 2, 471, 472, 7, 42, 2, 2, 472, 6, 3, 2, 2, 2, 473, 474, 7, 43, 2, 2, 474, 8, 3, 2, 2, 2, 475, 476, 7, 125, 2, 2, 476, 10, 3, 2, 2, 2, 477, 478, 7, 127, 2, 2, 478, 12, 3, 2, 2, 2, 479, 480, 7, 61, 2, 2, 480, 14, 3, 2, 2, 2, 481, 482, 7, 48, 2, 2, 482, 16, 3, 2, 2, 2, 483, 484, 7, 46, 2, 2, 484, 18, 3, 2, 2, 2, 485, 486, 7, 99, 2, 2, 486, 20, 3, 2, 2, 2, 487, 488, 7, 126, 2, 2, 488, 22, 3, 2, 2, 2, 489, 490, 7, 49, 2, 2, 490, 24, 3, 2, 2, 2, 491, 492, 7, 96, 2, 2, 492, 26, 3, 2, 2, 2, 493, 494, 7, 65, 2, 2, 494, 28, 3, 2, 2, 2, 495, 496, 7, 45, 2, 2, 496, 30, 3, 2, 2, 2, 497, 498, 7, 35, 2, 2, 498, 32, 3, 2, 2, 2, 499, 500, 7, 93, 2, 2, 500, 34, 3, 2, 2, 2, 501, 502, 7, 95, 2, 2, 502, 36, 3, 2, 2, 2, 503, 504, 7, 126, 2, 2, 504, 505, 7, 126, 2, 2, 505, 38, 3, 2, 2, 2, 506, 507, 7, 40, 2, 2, 507, 508, 7, 40, 2, 2, 508, 40, 3, 2, 2, 2, 509, 510, 7, 63, 2, 2, 510, 42, 3, 2, 2, 2, 511, 512, 7, 35, 2, 2, 512, 513, 7, 63, 2, 2, 513, 44, 3, 2, 2, 2, 514, 515, 7, 62, 2, 2, 515, 46, 3, 2, 2, 2, 516, 517, 7, 64, 2, 2, 517, 48, 3, 2, 2, 2, 518, 519, 7, 62, 2, 2, 519, 520, 7, 63, 2, 2, 520, 50, 3, 2, 2, 2, 521, 522, 7, 64, 2, 2, 522, 523, 7, 63, 2, 2, 523, 52, 3, 2, 2, 2, 524, 525, 7, 47, 2, 2, 525, 54, 3, 2, 2, 2, 526, 527, 7, 96, 2, 2, 527, 528, 7, 96, 2, 2, 528, 56, 3, 2, 2, 2, 529, 530, 7, 118, 2, 2, 530, 531, 7, 116, 2, 2, 531, 532, 7, 119, 2, 2, 532, 533, 7, 103, 2, 2, 533, 58, 3, 2, 2, 2, 534, 535, 7, 104, 2, 2, 535, 536, 7, 99, 2, 2, 536, 537, 7, 110, 2, 2, 537, 538, 7, 117, 2, 2, 538, 539, 7, 103, 2, 2, 539, 60, 3, 2, 2, 2, 540, 541, 5, 443, 222, 2, 541, 542, 5, 445, 223, 2, 542, 543, 5, 461, 231, 2, 543, 62, 3, 2, 2, 2, 544, 545, 5, 465, 233, 2, 545, 546, 5, 425, 213, 2, 546, 547, 5, 417, 209, 2, 547, 548, 5, 451, 226, 2, 548, 64, 3, 2, 2, 2, 549, 550, 5, 457, 229, 2, 550, 551, 5, 443, 222, 2, 551, 552, 5, 433, 217, 2, 552, 553, 5, 445, 223, 2, 553, 554, 5, 443, 222, 2, 554, 66, 3, 2, 2, 2, 555, 556, 5, 433, 217, 2, 556, 557, 5, 427, 214, 2, 557, 68, 3, 2, 2, 2, 558, 559, 5, 417, 209, 2, 559, 560, 5, 453, 227, 2, 560, 561, 5, 437, 219, 2, 561, 70, 3, 2, 2, 2, 562, 563, 5, 417, 209, 2, 563, 564, 5, 453, 227, 2, 564, 565, 5, 421, 211, 2, 565, 72, 3, 2, 2, 2, 566, 567, 5, 421, 211, 2, 567, 568, 5, 445, 223, 2, 568, 569, 5, 443, 222, 2, 569, 570, 5, 421, 211, 2, 570, 571, 5, 417, 209, 2, 571, 572, 5, 455, 228, 2, 572, 74, 3, 2, 2, 2, 573, 574, 5, 433, 217, 2, 574, 575, 5, 443, 222, 2, 575, 76, 3, 2, 2, 2, 576, 577, 5, 457, 229, 2, 577, 578, 5, 443, 222, 2, 578, 579, 5, 423, 212, 2, 579, 580, 5, 425, 213, 2, 580, 581, 5, 427, 214, 2, 581, 78, 3, 2, 2, 2, 582, 583, 5, 433, 217, 2, 583, 584, 5, 443, 222, 2, 584, 585, 5, 453, 227, 2, 585, 586, 5, 425, 213, 2, 586, 587, 5, 451, 226, 2, 587, 588, 5, 455, 228, 2, 588, 80, 3, 2, 2, 2, 589, 590, 5, 441, 221, 2, 590, 591, 5, 445, 223, 2, 591, 592, 5, 443, 222, 2, 592, 593, 5, 455, 228, 2, 593, 594, 5, 431, 216, 2, 594, 82, 3, 2, 2, 2, 595, 596, 5, 423, 212, 2, 596, 597, 5, 425, 213, 2, 597, 598, 5, 427, 214, 2, 598, 599, 5, 417, 209, 2, 599, 600, 5, 457, 229, 2, 600, 601, 5, 439, 220, 2, 601, 602, 5, 455, 228, 2, 602, 84, 3, 2, 2, 2, 603, 604, 5, 453, 227, 2, 604, 605, 5, 425, 213, 2, 605, 606, 5, 439, 220, 2, 606, 607, 5, 425, 213, 2, 607, 608, 5, 421, 211, 2, 608, 609, 5, 455, 228, 2, 609, 86, 3, 2, 2, 2, 610, 611, 5, 427, 214, 2, 611, 612, 5, 439, 220, 2, 612, 613, 5, 445, 223, 2, 613, 614, 5, 445, 223, 2, 614, 615, 5, 451, 226, 2, 615, 88, 3, 2, 2, 2, 616, 617, 5, 455, 228, 2, 617, 618, 5, 467, 234, 2, 618, 90, 3, 2, 2, 2, 619, 620, 5, 421, 211, 2, 620, 621, 5, 445, 223, 2, 621, 622, 5, 447, 224, 2, 622, 623, 5, 465, 233, 2, 623, 92, 3, 2, 2, 2, 624, 625, 5, 421, 211, 2, 625, 626, 5, 425, 213, 2, 626, 627, 5, 433, 217, 2, 627, 628, 5, 439, 220, 2, 628, 94, 3, 2, 2, 2, 629, 630, 5, 431, 216, 2, 630, 631, 5, 445, 223, 2, 631, 632, 5, 457, 229, 2, 632, 633, 5, 451, 226, 2, 633, 634, 5, 453, 227, 2, 634, 96, 3, 2, 2, 2, 635, 636, 5, 423, 212, 2, 636, 637, 5, 417, 209, 2, 637, 638, 5, 455, 228, 2, 638, 639, 5, 417, 209, 2, 639, 640, 5, 455, 228, 2, 640, 641, 5, 465, 233, 2, 641, 642, 5, 447, 224, 2, 642, 643, 5, 425, 213, 2, 643, 98, 3, 2, 2, 2, 644, 645, 5, 433, 217, 2, 645, 646, 5, 453, 227, 2, 646, 647, 5, 443, 222, 2, 647, 648, 5, 457, 229, 2, 648, 649, 5, 441, 221, 2, 649, 650, 5, 425, 213, 2, 650, 651, 5, 451, 226, 2, 651, 652, 5, 433, 217, 2, 652, 653, 5, 421, 211, 2, 653, 100, 3, 2, 2, 2, 654, 655, 5, 453, 227, 2, 655, 656, 5, 455, 228, 2, 656, 657, 5, 451, 226, 2, 657, 658, 5, 457, 229, 2, 658, 659, 5, 457, 229, 2, 659, 660, 5, 433, 217, 2, 660, 661, 5, 423, 212, 2, 661, 102, 3, 2, 2, 2, 662, 663, 5, 421, 211, 2, 663, 664, 5, 445, 223, 2, 664, 665, 5, 443, 222, 2, 665, 666, 5, 453, 227, 2, 666, 667, 5, 455, 228, 2, 667, 668, 5, 451, 226, 2, 668, 669, 5, 457, 229, 2, 669, 670, 5, 421, 211, 2, 670, 671, 5, 455, 228, 2, 671, 104, 3, 2, 2, 2, 672, 673, 5, 417, 209, 2, 673, 674, 5, 423, 212, 2, 674, 675, 5, 423, 212, 2, 675, 106, 3, 2, 2, 2, 676, 677, 5, 419, 210, 2, 677, 678, 5, 445, 223, 2, 678, 679, 5, 457, 229, 2, 679, 680, 5, 443, 222, 2, 680, 681, 5, 423, 212, 2, 681, 108, 3, 2, 2, 2, 682, 683, 5, 443, 222, 2, 683, 684, 5, 417, 209, 2, 684, 685, 5, 441, 221, 2, 685, 686, 5, 425, 213, 2, 686, 687, 5, 423, 212, 2, 687, 110, 3, 2, 2, 2, 688, 689, 5, 455, 228, 2, 689, 690, 5, 433, 217, 2, 690, 691, 5, 441, 221, 2, 691, 692, 5, 425, 213, 2, 692, 693, 5, 467, 234, 2, 693, 694, 5, 445, 223, 2, 694, 695, 5, 443, 222, 2, 695, 696, 5, 425, 213, 2, 696, 112, 3, 2, 2, 2, 697, 698, 5, 441, 221, 2, 698, 699, 5, 433, 217, 2, 699, 700, 5, 443, 222, 2, 700, 114, 3, 2, 2, 2, 701, 702, 5, 433, 217, 2, 702, 703, 5, 453, 227, 2, 703, 704, 5, 419, 210, 2, 704, 705, 5, 439, 220, 2, 705, 706, 5, 417, 209, 2, 706, 707, 5, 443, 222, 2, 707, 708, 5, 437, 219, 2, 708, 116, 3, 2, 2, 2, 709, 710, 5, 457, 229, 2, 710, 711, 5, 457, 229, 2, 711, 712, 5, 433, 217, 2, 712, 713, 5, 423, 212, 2, 713, 118, 3, 2, 2, 2, 714, 715, 5, 419, 210, 2, 715, 716, 5, 433, 217, 2, 716, 717, 5, 443, 222, 2, 717, 718, 5, 423, 212, 2, 718, 120, 3, 2, 2, 2, 719, 720, 5, 421, 211, 2, 720, 721, 5, 439, 220, 2, 721, 722, 5, 425, 213, 2, 722, 723, 5, 417, 209, 2, 723, 724, 5, 451, 226, 2, 724, 122, 3, 2, 2, 2, 725, 726, 5, 433, 217, 2, 726, 727, 5, 443, 222, 2, 727, 728, 5, 455, 228, 2, 728, 729, 5, 445, 223, 2, 729, 124, 3, 2, 2, 2, 730, 731, 5, 417, 209, 2, 731, 732, 5, 453, 227, 2, 732, 126, 3, 2, 2, 2, 733, 734, 5, 417, 209, 2, 734, 735, 5, 439, 220, 2, 735, 736, 5, 439, 220, 2, 736, 128, 3, 2, 2, 2, 737, 738, 5, 433, 217, 2, 738, 739, 5, 451, 226, 2, 739, 740, 5, 433, 217, 2, 740, 130, 3, 2, 2, 2, 741, 742, 5, 419, 210, 2, 742, 743, 5, 417, 209, 2, 743, 744, 5, 453, 227, 2, 744, 745, 5, 425, 213, 2, 745, 132, 3, 2, 2, 2, 746, 747, 5, 419, 210, 2, 747, 748, 5, 465, 233, 2, 748, 134, 3, 2, 2, 2, 749, 750, 5, 423, 212, 2, 750, 751, 5, 451, 226, 2, 751, 752, 5, 445, 223, 2, 752, 753, 5, 447, 224, 2, 753, 136, 3, 2, 2, 2, 754, 755, 5, 439, 220, 2, 755, 756, 5, 445, 223, 2, 756, 757, 5, 417, 209, 2, 757, 758, 5, 423, 212, 2, 758, 138, 3, 2, 2, 2, 759, 760, 5, 461, 231, 2, 760, 761, 5, 433, 217, 2, 761, 762, 5, 455, 228, 2, 762, 763, 5, 431, 216, 2, 763, 140, 3, 2, 2, 2, 764, 765, 5, 419, 210, 2, 765, 766, 5, 443, 222, 2, 766, 767, 5, 445, 223, 2, 767, 768, 5, 423, 212, 2, 768, 769, 5, 425, 213, 2, 769, 142, 3, 2, 2, 2, 770, 771, 5, 461, 231, 2, 771, 772, 5, 431, 216, 2, 772, 773, 5, 425, 213, 2, 773, 774, 5, 451, 226, 2, 774, 775, 5, 425, 213, 2, 775, 144, 3, 2, 2, 2, 776, 777, 5, 417, 209, 2, 777, 778, 5, 459, 230, 2, 778, 779, 5, 429, 215, 2, 779, 146, 3, 2, 2, 2, 780, 781, 5, 453, 227, 2, 781, 782, 5, 417, 209, 2, 782, 783, 5, 441, 221, 2, 783, 784, 5, 447, 224, 2, 784, 785, 5, 439, 220, 2, 785, 786, 5, 425, 213, 2, 786, 148, 3, 2, 2, 2, 787, 788, 5, 457, 229, 2, 788, 789, 5, 421, 211, 2, 789, 790, 5, 417, 209, 2, 790, 791, 5, 453, 227, 2, 791, 792, 5, 425, 213, 2, 792, 150, 3, 2, 2, 2, 793, 794, 5, 453, 227, 2, 794, 795, 5, 425, 213, 2, 795, 796, 5, 451, 226, 2, 796, 797, 5, 459, 230, 2, 797, 798, 5, 433, 217, 2, 798, 799, 5, 421, 211, 2, 799, 800, 5, 425, 213, 2, 800, 152, 3, 2, 2, 2, 801, 802, 5, 441, 221, 2, 802, 803, 5, 433, 217, 2, 803, 804, 5, 443, 222, 2, 804, 805, 5, 457, 229, 2, 805, 806, 5, 453, 227, 2, 806, 154, 3, 2, 2, 2, 807, 808, 5, 453, 227, 2, 808, 809, 5, 417, 209, 2, 809, 810, 5, 441, 221, 2, 810, 811, 5, 425, 213, 2, 811, 812, 5, 455, 228, 2, 812, 813, 5, 425, 213, 2, 813, 814, 5, 451, 226, 2, 814, 815, 5, 441, 221, 2, 815, 156, 3, 2, 2, 2, 816, 817, 5, 453, 227, 2, 817, 818, 5, 455, 228, 2, 818, 819, 5, 451, 226, 2, 819, 820, 5, 453, 227, 2, 820, 821, 5, 455, 228, 2, 821, 822, 5, 417, 209, 2, 822, 823, 5, 451, 226, 2, 823, 824, 5, 455, 228, 2, 824, 825, 5, 453, 227, 2, 825, 158, 3, 2, 2, 2, 826, 827, 5, 453, 227, 2, 827, 828, 5, 455, 228, 2, 828, 829, 5, 451, 226, 2, 829, 160, 3, 2, 2, 2, 830, 831, 5, 441, 221, 2, 831, 832, 5, 445, 223, 2, 832, 833, 5, 459, 230, 2, 833, 834, 5, 425, 213, 2, 834, 162, 3, 2, 2, 2, 835, 836, 5, 431, 216, 2, 836, 837, 5, 417, 209, 2, 837, 838, 5, 459, 230, 2, 838, 839, 5, 433, 217, 2, 839, 840, 5, 443, 222, 2, 840, 841, 5, 429, 215, 2, 841, 164, 3, 2, 2, 2, 842, 843, 5, 421, 211, 2, 843, 844, 5, 445, 223, 2, 844, 845, 5, 417, 209, 2, 845, 846, 5, 439, 220, 2, 846, 847, 5, 425, 213, 2, 847, 848, 5, 453, 227, 2, 848, 849, 5, 421, 211, 2, 849, 850, 5, 425, 213, 2, 850, 166, 3, 2, 2, 2, 851, 852, 5, 453, 227, 2, 852, 853, 5, 455, 228, 2, 853, 854, 5, 451, 226, 2, 854, 855, 5, 419, 210, 2, 855, 856, 5, 425, 213, 2, 856, 857, 5, 427, 214, 2, 857, 858, 5, 445, 223, 2, 858, 859, 5, 451, 226, 2, 859, 860, 5, 425, 213, 2, 860, 168, 3, 2, 2, 2, 861, 862, 5, 417, 209, 2, 862, 863, 5, 419, 210, 2, 863, 864, 5, 453, 227, 2, 864, 170, 3, 2, 2, 2, 865, 866, 5, 433, 217, 2, 866, 867, 5, 453, 227, 2, 867, 868, 5, 439, 220, 2, 868, 869, 5, 433, 217, 2, 869, 870, 5, 455, 228, 2, 870, 871, 5, 425, 213, 2, 871, 872, 5, 451, 226, 2, 872, 873, 5, 417, 209, 2, 873, 874, 5, 439, 220, 2, 874, 172, 3, 2, 2, 2, 875, 876, 5, 453, 227, 2, 876, 877, 5, 455, 228, 2, 877, 878, 5, 451, 226, 2, 878, 879, 5, 417, 209, 2, 879, 880, 5, 427, 214, 2, 880, 881, 5, 455, 228, 2, 881, 882, 5, 425, 213, 2, 882, 883, 5, 451, 226, 2, 883, 174, 3, 2, 2, 2, 884, 885, 5, 453, 227, 2, 885, 886, 5, 455, 228, 2, 886, 887, 5, 451, 226, 2, 887, 888, 5, 439, 220, 2, 888, 889, 5, 425, 213, 2, 889, 890, 5, 443, 222, 2, 890, 176, 3, 2, 2, 2, 891, 892, 5, 439, 220, 2, 892, 893, 5, 417, 209, 2, 893, 894, 5, 443, 222, 2, 894, 895, 5, 429, 215, 2, 895, 178, 3, 2, 2, 2, 896, 897, 5, 421, 211, 2, 897, 898, 5, 451, 226, 2, 898, 899, 5, 425, 213, 2, 899, 900, 5, 417, 209, 2, 900, 901, 5, 455, 228, 2, 901, 902, 5, 425, 213, 2, 902, 180, 3, 2, 2, 2, 903, 904, 5, 423, 212, 2, 904, 905, 5, 425, 213, 2, 905, 906, 5, 453, 227, 2, 906, 907, 5, 421, 211, 2, 907, 182, 3, 2, 2, 2, 908, 909, 5, 441, 221, 2, 909, 910, 5, 417, 209, 2, 910, 911, 5, 463, 232, 2, 911, 184, 3, 2, 2, 2, 912, 913, 5, 427, 214, 2, 913, 914, 5, 433, 217, 2, 914, 915, 5, 439, 220, 2, 915, 916, 5, 455, 228, 2, 916, 917, 5, 425, 213, 2, 917, 918, 5, 451, 226, 2, 918, 186, 3, 2, 2, 2, 919, 920, 5, 457, 229, 2, 920, 921, 5, 453, 227, 2, 921, 922, 5, 433, 217, 2, 922, 923, 5, 443, 222, 2, 923, 924, 5, 429, 215, 2, 924, 188, 3, 2, 2, 2, 925, 926, 5, 443, 222, 2, 926, 927, 5, 445, 223, 2, 927, 928, 5, 455, 228, 2, 928, 190, 3, 2, 2, 2, 929, 930, 5, 453, 227, 2, 930, 931, 5, 455, 228, 2, 931, 932, 5, 451, 226, 2, 932, 933, 5, 425, 213, 2, 933, 934, 5, 443, 222, 2, 934, 935, 5, 423, 212, 2, 935, 936, 5, 453, 227, 2, 936, 192, 3, 2, 2, 2, 937, 938, 5, 445, 223, 2, 938, 939, 5, 427, 214, 2, 939, 940, 5, 427, 214, 2, 940, 941, 5, 453, 227, 2, 941, 942, 5, 425, 213, 2, 942, 943, 5, 455, 228, 2, 943, 194, 3, 2, 2, 2, 944, 945, 5, 421, 211, 2, 945, 946, 5, 445, 223, 2, 946, 947, 5, 443, 222, 2, 947, 948, 5, 455, 228, 2, 948, 949, 5, 417, 209, 2, 949, 950, 5, 433, 217, 2, 950, 951, 5, 443, 222, 2, 951, 952, 5, 453, 227, 2, 952, 196, 3, 2, 2, 2, 953, 954, 5, 447, 224, 2, 954, 955, 5, 451, 226, 2, 955, 956, 5, 425, 213, 2, 956, 957, 5, 427, 214, 2, 957, 958, 5, 433, 217, 2, 958, 959, 5, 463, 232, 2, 959, 198, 3, 2, 2, 2, 960, 961, 5, 441, 221, 2, 961, 962, 5, 433, 217, 2, 962, 963, 5, 443, 222, 2, 963, 964, 5, 457, 229, 2, 964, 965, 5, 455, 228, 2, 965, 966, 5, 425, 213, 2, 966, 967, 5, 453, 227, 2, 967, 200, 3, 2, 2, 2, 968, 969, 5, 451, 226, 2, 969, 970, 5, 425, 213, 2, 970, 971, 5, 447, 224, 2, 971, 972, 5, 439, 220, 2, 972, 973, 5, 417, 209, 2, 973, 974, 5, 421, 211, 2, 974, 975, 5, 425, 213, 2, 975, 202, 3, 2, 2, 2, 976, 977, 5, 451, 226, 2, 977, 978, 5, 425, 213, 2, 978, 979, 5, 429, 215, 2, 979, 980, 5, 425, 213, 2, 980, 981, 5, 463, 232, 2, 981, 204, 3, 2, 2, 2, 982, 983, 5, 423, 212, 2, 983, 984, 5, 425, 213, 2, 984, 985, 5, 439, 220, 2, 985, 986, 5, 425, 213, 2, 986, 987, 5, 455, 228, 2, 987, 988, 5, 425, 213, 2, 988, 206, 3, 2, 2, 2, 989, 990, 5, 453, 227, 2, 990, 991, 5, 425, 213, 2, 991, 992, 5, 447, 224, 2, 992, 993, 5, 417, 209, 2, 993, 994, 5, 451, 226, 2, 994, 995, 5, 417, 209, 2, 995, 996, 5, 455, 228, 2, 996, 997, 5, 445, 223, 2, 997, 998, 5, 451, 226, 2, 998, 208, 3, 2, 2, 2, 999, 1000, 5, 423, 212, 2, 1000, 1001, 5, 417, 209, 2, 1001, 1002, 5, 465, 233, 2, 1002, 210, 3, 2, 2, 2, 1003, 1004, 5, 453, 227, 2, 1004, 1005, 5, 433, 217, 2, 1005, 1006, 5, 439, 220, 2, 1006, 1007, 5, 425, 213, 2, 1007, 1008, 5, 443, 222, 2, 1008, 1009, 5, 455, 228, 2, 1009, 212, 3, 2, 2, 2, 1010, 1011, 5, 453, 227, 2, 1011, 1012, 5, 455, 228, 2, 1012, 1013, 5, 451, 226, 2, 1013, 1014, 5, 439, 220, 2, 1014, 1015, 5, 417, 209, 2, 1015, 1016, 5, 443, 222, 2, 1016, 1017, 5, 429, 215, 2, 1017, 214, 3, 2, 2, 2, 1018, 1019, 5, 445, 223, 2, 1019, 1020, 5, 451, 226, 2, 1020, 1021, 5, 423, 212, 2, 1021, 1022, 5, 425, 213, 2, 1022, 1023, 5, 451, 226, 2, 1023, 216, 3, 2, 2, 2, 1024, 1025, 5, 451, 226, 2, 1025, 1026, 5, 445, 223, 2, 1026, 1027, 5, 457, 229, 2, 1027, 1028, 5, 443, 222, 2, 1028, 1029, 5, 423, 212, 2, 1029, 218, 3, 2, 2, 2, 1030, 1031, 5, 429, 215, 2, 1031, 1032, 5, 451, 226, 2, 1032, 1033, 5, 417, 209, 2, 1033, 1034, 5, 447, 224, 2, 1034, 1035, 5, 431, 216, 2, 1035, 220, 3, 2, 2, 2, 1036, 1037, 5, 453, 227, 2, 1037, 1038, 5, 425, 213, 2, 1038, 1039, 5, 421, 211, 2, 1039, 1040, 5, 445, 223, 2, 1040, 1041, 5, 443, 222, 2, 1041, 1042, 5, 423, 212, 2, 1042, 1043, 5, 453, 227, 2, 1043, 222, 3, 2, 2, 2, 1044, 1045, 5, 457, 229, 2, 1045, 1046, 5, 451, 226, 2, 1046, 1047, 5, 433, 217, 2, 1047, 224, 3, 2, 2, 2, 1048, 1049, 5, 423, 212, 2, 1049, 1050, 5, 433, 217, 2, 1050, 1051, 5, 453, 227, 2, 1051, 1052, 5, 455, 228, 2, 1052, 1053, 5, 433, 217, 2, 1053, 1054, 5, 443, 222, 2, 1054, 1055, 5, 421, 211, 2, 1055, 1056, 5, 455, 228, 2, 1056, 226, 3, 2, 2, 2, 1057, 1058, 5, 425, 213, 2, 1058, 1059, 5, 463, 232, 2, 1059, 1060, 5, 433, 217, 2, 1060, 1061, 5, 453, 227, 2, 1061, 1062, 5, 455, 228, 2, 1062, 1063, 5, 453, 227, 2, 1063, 228, 3, 2, 2, 2, 1064, 1065, 5, 429, 215, 2, 1065, 1066, 5, 451, 226, 2, 1066, 1067, 5, 445, 223, 2, 1067, 1068, 5, 457, 229, 2, 1068, 1069, 5, 447, 224, 2, 1069, 230, 3, 2, 2, 2, 1070, 1071, 5, 453, 227, 2, 1071, 1072, 5, 457, 229, 2, 1072, 1073, 5, 441, 221, 2, 1073, 232, 3, 2, 2, 2, 1074, 1075, 5, 451, 226, 2, 1075, 1076, 5, 425, 213, 2, 1076, 1077, 5, 423, 212, 2, 1077, 1078, 5, 457, 229, 2, 1078, 1079, 5, 421, 211, 2, 1079, 1080, 5, 425, 213, 2, 1080, 1081, 5, 423, 212, 2, 1081, 234, 3, 2, 2, 2, 1082, 1083, 5, 427, 214, 2, 1083, 1084, 5, 451, 226, 2, 1084, 1085, 5, 445, 223, 2, 1085, 1086, 5, 441, 221, 2, 1086, 236, 3, 2, 2, 2, 1087, 1088, 5, 439, 220, 2, 1088, 1089, 5, 417, 209, 2, 1089, 1090, 5, 443, 222, 2, 1090, 1091, 5, 429, 215, 2, 1091, 1092, 5, 441, 221, 2, 1092, 1093, 5, 417, 209, 2, 1093, 1094, 5, 455, 228, 2, 1094, 1095, 5, 421, 211, 2, 1095, 1096, 5, 431, 216, 2, 1096, 1097, 5, 425, 213, 2, 1097, 1098, 5, 453, 227, 2, 1098, 238, 3, 2, 2, 2, 1099, 1100, 5, 433, 217, 2, 1100, 1101, 5, 453, 227, 2, 1101, 1102, 5, 457, 229, 2, 1102, 1103, 5, 451, 226, 2, 1103, 1104, 5, 433, 217, 2, 1104, 240, 3, 2, 2, 2, 1105, 1106, 5, 455, 228, 2, 1106, 1107, 5, 445, 223, 2, 1107, 242, 3, 2, 2, 2, 1108, 1109, 5, 433, 217, 2, 1109, 1110, 5, 453, 227, 2, 1110, 1111, 5, 433, 217, 2, 1111, 1112, 5, 451, 226, 2, 1112, 1113, 5, 433, 217, 2, 1113, 244, 3, 2, 2, 2, 1114, 1115, 5, 451, 226, 2, 1115, 1116, 5, 417, 209, 2, 1116, 1117, 5, 443, 222, 2, 1117, 1118, 5, 423, 212, 2, 1118, 246, 3, 2, 2, 2, 1119, 1120, 5, 453, 227, 2, 1120, 1121, 5, 455, 228, 2, 1121, 1122, 5, 451, 226, 2, 1122, 1123, 5, 423, 212, 2, 1123, 1124, 5, 455, 228, 2, 1124, 248, 3, 2, 2, 2, 1125, 1126, 5, 421, 211, 2, 1126, 1127, 5, 445, 223, 2, 1127, 1128, 5, 457, 229, 2, 1128, 1129, 5, 443, 222, 2, 1129, 1130, 5, 455, 228, 2, 1130, 250, 3, 2, 2, 2, 1131, 1132, 5, 423, 212, 2, 1132, 1133, 5, 425, 213, 2, 1133, 1134, 5, 453, 227, 2, 1134, 1135, 5, 421, 211, 2, 1135, 1136, 5, 451, 226, 2, 1136, 1137, 5, 433, 217, 2, 1137, 1138, 5, 419, 210, 2, 1138, 1139, 5, 425, 213, 2, 1139, 252, 3, 2, 2, 2, 1140, 1141, 5, 459, 230, 2, 1141, 1142, 5, 417, 209, 2, 1142, 1143, 5, 439, 220, 2, 1143, 1144, 5, 457, 229, 2, 1144, 1145, 5, 425, 213, 2, 1145, 1146, 5, 453, 227, 2, 1146, 254, 3, 2, 2, 2, 1147, 1148, 5, 439, 220, 2, 1148, 1149, 5, 421, 211, 2, 1149, 1150, 5, 417, 209, 2, 1150, 1151, 5, 453, 227, 2, 1151, 1152, 5, 425, 213, 2, 1152, 256, 3, 2, 2, 2, 1153, 1154, 5, 445, 223, 2, 1154, 1155, 5, 447, 224, 2, 1155, 1156, 5, 455, 228, 2, 1156, 1157, 5, 433, 217, 2, 1157, 1158, 5, 445, 223, 2, 1158, 1159, 5, 443, 222, 2, 1159, 1160, 5, 417, 209, 2, 1160, 1161, 5, 439, 220, 2, 1161, 258, 3, 2, 2, 2, 1162, 1163, 5, 439, 220, 2, 1163, 1164, 5, 433, 217, 2, 1164, 1165, 5, 441, 221, 2, 1165, 1166, 5, 433, 217, 2, 1166, 1167, 5, 455, 228, 2, 1167, 260, 3, 2, 2, 2, 1168, 1169, 5, 453, 227, 2, 1169, 1170, 5, 457, 229, 2, 1170, 1171, 5, 419, 210, 2, 1171, 1172, 5, 453, 227, 2, 1172, 1173, 5, 455, 228, 2, 1173, 1174, 5, 451, 226, 2, 1174, 262, 3, 2, 2, 2, 1175, 1176, 5, 453, 227, 2, 1176, 1177, 5, 433, 217, 2, 1177, 1178, 5, 441, 221, 2, 1178, 1179, 5, 447, 224, 2, 1179, 1180, 5, 439, 220, 2, 1180, 1181, 5, 425, 213, 2, 1181, 1182, 5, 421, 211, 2, 1182, 1183, 5, 465, 233, 2, 1183, 1184, 5, 421, 211, 2, 1184, 1185, 5, 439, 220, 2, 1185, 1186, 5, 425, 213, 2, 1186, 1187, 5, 447, 224, 2, 1187, 1188, 5, 417, 209, 2, 1188, 1189, 5, 455, 228, 2, 1189, 1190, 5, 431, 216, 2, 1190, 264, 3, 2, 2, 2, 1191, 1192, 5, 453, 227, 2, 1192, 1193, 5, 433, 217, 2, 1193, 1194, 5, 441, 221, 2, 1194, 1195, 5, 447, 224, 2, 1195, 1196, 5, 439, 220, 2, 1196, 1197, 5, 425, 213, 2, 1197, 1198, 5, 421, 211, 2, 1198, 1199, 5, 465, 233, 2, 1199, 1200, 5, 421, 211, 2, 1200, 1201, 5, 439, 220, 2, 1201, 1202, 5, 425, 213, 2, 1202, 1203, 5, 419, 210, 2, 1203, 1204, 5, 445, 223, 2, 1204, 1205, 5, 445, 223, 2, 1205, 1206, 5, 439, 220, 2, 1206, 1207, 5, 425, 213, 2, 1207, 1208, 5, 417, 209, 2, 1208, 1209, 5, 443, 222, 2, 1209, 266, 3, 2, 2, 2, 1210, 1211, 5, 421, 211, 2, 1211, 1212, 5, 465, 233, 2, 1212, 1213, 5, 421, 211, 2, 1213, 1214, 5, 439, 220, 2, 1214, 1215, 5, 425, 213, 2, 1215, 1216, 5, 447, 224, 2, 1216, 1217, 5, 417, 209, 2, 1217, 1218, 5, 455, 228, 2, 1218, 1219, 5, 431, 216, 2, 1219, 268, 3, 2, 2, 2, 1220, 1221, 5, 421, 211, 2, 1221, 1222, 5, 465, 233, 2, 1222, 1223, 5, 421, 211, 2, 1223, 1224, 5, 439, 220, 2, 1224, 1225, 5, 425, 213, 2, 1225, 1226, 5, 419, 210, 2, 1226, 1227, 5, 445, 223, 2, 1227, 1228, 5, 445, 223, 2, 1228, 1229, 5, 439, 220, 2, 1229, 1230, 5, 425, 213, 2, 1230, 1231, 5, 417, 209, 2, 1231, 1232, 5, 443, 222, 2, 1232, 270, 3, 2, 2, 2, 1233, 1234, 5, 453, 227, 2, 1234, 1235, 5, 431, 216, 2, 1235, 1236, 5, 445, 223, 2, 1236, 1237, 5, 451, 226, 2, 1237, 1238, 5, 455, 228, 2, 1238, 1239, 5, 425, 213, 2, 1239, 1240, 5, 453, 227, 2, 1240, 1241, 5, 455, 228, 2, 1241, 1242, 5, 447, 224, 2, 1242, 1243, 5, 417, 209, 2, 1243, 1244, 5, 455, 228, 2, 1244, 1245, 5, 431, 216, 2, 1245, 272, 3, 2, 2, 2, 1246, 1247, 5, 453, 227, 2, 1247, 1248, 5, 431, 216, 2, 1248, 1249, 5, 445, 223, 2, 1249, 1250, 5, 451, 226, 2, 1250, 1251, 5, 455, 228, 2, 1251, 1252, 5, 425, 213, 2, 1252, 1253, 5, 453, 227, 2, 1253, 1254, 5, 455, 228, 2, 1254, 1255, 5, 447, 224, 2, 1255, 1256, 5, 417, 209, 2, 1256, 1257, 5, 455, 228, 2, 1257, 1258, 5, 431, 216, 2, 1258, 1259, 5, 439, 220, 2, 1259, 1260, 5, 425, 213, 2, 1260, 1261, 5, 443, 222, 2, 1261, 274, 3, 2, 2, 2, 1262, 1263, 5, 437, 219, 2, 1263, 1264, 5, 431, 216, 2, 1264, 1265, 5, 445, 223, 2, 1265, 1266, 5, 447, 224, 2, 1266, 1267, 5, 451, 226, 2, 1267, 1268, 5, 425, 213, 2, 1268, 1269, 5, 417, 209, 2, 1269, 1270, 5, 421, 211, 2, 1270, 1271, 5, 431, 216, 2, 1271, 1272, 5, 417, 209, 2, 1272, 1273, 5, 419, 210, 2, 1273, 1274, 5, 439, 220, 2, 1274, 1275, 5, 425, 213, 2, 1275, 276, 3, 2, 2, 2, 1276, 1277, 5, 437, 219, 2, 1277, 1278, 5, 431, 216, 2, 1278, 1279, 5, 445, 223, 2, 1279, 1280, 5, 447, 224, 2, 1280, 1281, 5, 425, 213, 2, 1281, 1282, 5, 443, 222, 2, 1282, 1283, 5, 457, 229, 2, 1283, 1284, 5, 441, 221, 2, 1284, 1285, 5, 425, 213, 2, 1285, 1286, 5, 451, 226, 2, 1286, 1287, 5, 417, 209, 2, 1287, 1288, 5, 455, 228, 2, 1288, 1289, 5, 425, 213, 2, 1289, 278, 3, 2, 2, 2, 1290, 1291, 5, 437, 219, 2, 1291, 1292, 5, 431, 216, 2, 1292, 1293, 5, 445, 223, 2, 1293, 1294, 5, 447, 224, 2, 1294, 1295, 5, 451, 226, 2, 1295, 1296, 5, 425, 213, 2, 1296, 1297, 5, 417, 209, 2, 1297, 1298, 5, 421, 211, 2, 1298, 1299, 5, 431, 216, 2, 1299, 1300, 5, 417, 209, 2, 1300, 1301, 5, 419, 210, 2, 1301, 1302, 5, 439, 220, 2, 1302, 1303, 5, 425, 213, 2, 1303, 1304, 5, 447, 224, 2, 1304, 1305, 5, 417, 209, 2, 1305, 1306, 5, 455, 228, 2, 1306, 1307, 5, 431, 216, 2, 1307, 280, 3, 2, 2, 2, 1308, 1309, 5, 447, 224, 2, 1309, 1310, 5, 447, 224, 2, 1310, 1311, 5, 451, 226, 2, 1311, 282, 3, 2, 2, 2, 1312, 1313, 5, 455, 228, 2, 1313, 1314, 5, 451, 226, 2, 1314, 1315, 5, 433, 217, 2, 1315, 1316, 5, 417, 209, 2, 1316, 1317, 5, 443, 222, 2, 1317, 1318, 5, 429, 215, 2, 1318, 1319, 5, 439, 220, 2, 1319, 1320, 5, 425, 213, 2, 1320, 1321, 5, 421, 211, 2, 1321, 1322, 5, 445, 223, 2, 1322, 1323, 5, 457, 229, 2, 1323, 1324, 5, 443, 222, 2, 1324, 1325, 5, 455, 228, 2, 1325, 1326, 5, 433, 217, 2, 1326, 1327, 5, 443, 222, 2, 1327, 1328, 5, 429, 215, 2, 1328, 284, 3, 2, 2, 2, 1329, 1330, 5, 421, 211, 2, 1330, 1331, 5, 439, 220, 2, 1331, 1332, 5, 445, 223, 2, 1332, 1333, 5, 453, 227, 2, 1333, 1334, 5, 425, 213, 2, 1334, 1335, 5, 443, 222, 2, 1335, 1336, 5, 425, 213, 2, 1336, 1337, 5, 453, 227, 2, 1337, 1338, 5, 453, 227, 2, 1338, 1339, 5, 421, 211, 2, 1339, 1340, 5, 425, 213, 2, 1340, 1341, 5, 443, 222, 2, 1341, 1342, 5, 455, 228, 2, 1342, 1343, 5, 451, 226, 2, 1343, 1344, 5, 417, 209, 2, 1344, 1345, 5, 439, 220, 2, 1345, 1346, 5, 433, 217, 2, 1346, 1347, 5, 455, 228, 2, 1347, 1348, 5, 465, 233, 2, 1348, 286, 3, 2, 2, 2, 1349, 1350, 5, 419, 210, 2, 1350, 1351, 5, 427, 214, 2, 1351, 1352, 5, 453, 227, 2, 1352, 1353, 5, 421, 211, 2, 1353, 1354, 5, 445, 223, 2, 1354, 1355, 5, 457, 229, 2, 1355, 1356, 5, 443, 222, 2, 1356, 1357, 5, 455, 228, 2, 1357, 288, 3, 2, 2, 2, 1358, 1359, 5, 447, 224, 2, 1359, 1360, 5, 451, 226, 2, 1360, 290, 3, 2, 2, 2, 1361, 1362, 5, 417, 209, 2, 1362, 1363, 5, 439, 220, 2, 1363, 1364, 5, 447, 224, 2, 1364, 1365, 5, 431, 216, 2, 1365, 1366, 5, 417, 209, 2, 1366, 292, 3, 2, 2, 2, 1367, 1368, 5, 441, 221, 2, 1368, 1369, 5, 417, 209, 2, 1369, 1370, 5, 463, 232, 2, 1370, 1371, 5, 433, 217, 2, 1371, 1372, 5, 455, 228, 2, 1372, 1373, 5, 425, 213, 2, 1373, 1374, 5, 451, 226, 2, 1374, 294, 3, 2, 2, 2, 1375, 1376, 5, 455, 228, 2, 1376, 1377, 5, 445, 223, 2, 1377, 1378, 5, 439, 220, 2, 1378, 296, 3, 2, 2, 2, 1379, 1380, 5, 453, 227, 2, 1380, 1381, 5, 453, 227, 2, 1381, 1382, 5, 453, 227, 2, 1382, 1383, 5, 447, 224, 2, 1383, 298, 3, 2, 2, 2, 1384, 1385, 5, 453, 227, 2, 1385, 1386, 5, 453, 227, 2, 1386, 1387, 5, 453, 227, 2, 1387, 1388, 5, 447, 224, 2, 1388, 1389, 5, 439, 220, 2, 1389, 1390, 5, 425, 213, 2, 1390, 1391, 5, 443, 222, 2, 1391, 300, 3, 2, 2, 2, 1392, 1393, 5, 439, 220, 2, 1393, 1394, 5, 417, 209, 2, 1394, 1395, 5, 419, 210, 2, 1395, 1396, 5, 425, 213, 2, 1396, 1397, 5, 439, 220, 2, 1397, 1398, 5, 447, 224, 2, 1398, 1399, 5, 451, 226, 2, 1399, 1400, 5, 445, 223, 2, 1400, 1401, 5, 447, 224, 2, 1401, 302, 3, 2, 2, 2, 1402, 1403, 5, 461, 231, 2, 1403, 1404, 5, 421, 211, 2, 1404, 1405, 5, 421, 211, 2, 1405, 304, 3, 2, 2, 2, 1406, 1407, 5, 421, 211, 2, 1407, 1408, 5, 439, 220, 2, 1408, 1409, 5, 457, 229, 2, 1409, 1410, 5, 453, 227, 2, 1410, 1411, 5, 455, 228, 2, 1411, 1412, 5, 425, 213, 2, 1412, 1413, 5, 451, 226, 2, 1413, 1414, 5, 421, 211, 2, 1414, 1415, 5, 445, 223, 2, 1415, 1416, 5, 425, 213, 2, 1416, 1417, 5, 427, 214, 2, 1417, 1418, 5, 427, 214, 2, 1418, 306, 3, 2, 2, 2, 1419, 1420, 5, 441, 221, 2, 1420, 1421, 5, 417, 209, 2, 1421, 1422, 5, 463, 232, 2, 1422, 1423, 5, 433, 217, 2, 1423, 1424, 5, 441, 221, 2, 1424, 1425, 5, 457, 229, 2, 1425, 1426, 5, 441, 221, 2, 1426, 1427, 5, 437, 219, 2, 1427, 1428, 5, 447, 224, 2, 1428, 1429, 5, 439, 220, 2, 1429, 1430, 5, 425, 213, 2, 1430, 1431, 5, 463, 232, 2, 1431, 308, 3, 2, 2, 2, 1432, 1433, 5, 421, 211, 2, 1433, 1434, 5, 445, 223, 2, 1434, 1435, 5, 451, 226, 2, 1435, 1436, 5, 425, 213, 2, 1436, 1437, 5, 455, 228, 2, 1437, 1438, 5, 451, 226, 2, 1438, 1439, 5, 457, 229, 2, 1439, 1440, 5, 453, 227, 2, 1440, 1441, 5, 453, 227, 2, 1441, 310, 3, 2, 2, 2, 1442, 1443, 5, 447, 224, 2, 1443, 1444, 5, 427, 214, 2, 1444, 1445, 5, 443, 222, 2, 1445, 312, 3, 2, 2, 2, 1446, 1447, 5, 437, 219, 2, 1447, 1448, 5, 431, 216, 2, 1448, 1449, 5, 445, 223, 2, 1449, 1450, 5, 447, 224, 2, 1450, 1451, 5, 421, 211, 2, 1451, 1452, 5, 445, 223, 2, 1452, 1453, 5, 457, 229, 2, 1453, 1454, 5, 443, 222, 2, 1454, 1455, 5, 455, 228, 2, 1455, 314, 3, 2, 2, 2, 1456, 1457, 5, 437, 219, 2, 1457, 1458, 5, 431, 216, 2, 1458, 1459, 5, 445, 223, 2, 1459, 1460, 5, 447, 224, 2, 1460, 1461, 5, 443, 222, 2, 1461, 1462, 5, 425, 213, 2, 1462, 1463, 5, 433, 217, 2, 1463, 1464, 5, 429, 215, 2, 1464, 1465, 5, 431, 216, 2, 1465, 1466, 5, 419, 210, 2, 1466, 1467, 5, 445, 223, 2, 1467, 1468, 5, 451, 226, 2, 1468, 316, 3, 2, 2, 2, 1469, 1470, 5, 453, 227, 2, 1470, 1471, 5, 431, 216, 2, 1471, 1472, 5, 445, 223, 2, 1472, 1473, 5, 451, 226, 2, 1473, 1474, 5, 455, 228, 2, 1474, 1475, 5, 425, 213, 2, 1475, 1476, 5, 453, 227, 2, 1476, 1477, 5, 455, 228, 2, 1477, 1478, 5, 447, 224, 2, 1478, 1479, 5, 417, 209, 2, 1479, 1480, 5, 455, 228, 2, 1480, 1481, 5, 431, 216, 2, 1481, 1482, 5, 421, 211, 2, 1482, 1483, 5, 445, 223, 2, 1483, 1484, 5, 457, 229, 2, 1484, 1485, 5, 443, 222, 2, 1485, 1486, 5, 455, 228, 2, 1486, 318, 3, 2, 2, 2, 1487, 1488, 5, 439, 220, 2, 1488, 1489, 5, 445, 223, 2, 1489, 1490, 5, 457, 229, 2, 1490, 1491, 5, 459, 230, 2, 1491, 1492, 5, 417, 209, 2, 1492, 1493, 5, 433, 217, 2, 1493, 1494, 5, 443, 222, 2, 1494, 320, 3, 2, 2, 2, 1495, 1496, 5, 433, 217, 2, 1496, 1497, 5, 421, 211, 2, 1497, 1498, 7, 51, 2, 2, 1498, 1499, 7, 54, 2, 2, 1499, 322, 3, 2, 2, 2, 1500, 1501, 5, 433, 217, 2, 1501, 1502, 5, 443, 222, 2, 1502, 1503, 5, 421, 211, 2, 1503, 1504, 5, 451, 226, 2, 1504, 1505, 5, 425, 213, 2, 1505, 1506, 5, 417, 209, 2, 1506, 1507, 5, 453, 227, 2, 1507, 1508, 5, 425, 213, 2, 1508, 324, 3, 2, 2, 2, 1509, 1510, 5, 433, 217, 2, 1510, 1511, 5, 443, 222, 2, 1511, 1512, 5, 453, 227, 2, 1512, 1513, 5, 425, 213, 2, 1513, 1514, 5, 451, 226, 2, 1514, 1515, 5, 455, 228, 2, 1515, 1516, 7, 34, 2, 2, 1516, 1517, 5, 423, 212, 2, 1517, 1518, 5, 417, 209, 2, 1518, 1519, 5, 455, 228, 2, 1519, 1520, 5, 417, 209, 2, 1520, 326, 3, 2, 2, 2, 1521, 1522, 5, 423, 212, 2, 1522, 1523, 5, 425, 213, 2, 1523, 1524, 5, 439, 220, 2, 1524, 1525, 5, 425, 213, 2, 1525, 1526, 5, 455, 228, 2, 1526, 1527, 5, 425, 213, 2, 1527, 1528, 7, 34, 2, 2, 1528, 1529, 5, 423, 212, 2, 1529, 1530, 5, 417, 209, 2, 1530, 1531, 5, 455, 228, 2, 1531, 1532, 5, 417, 209, 2, 1532, 328, 3, 2, 2, 2, 1533, 1534, 5, 423, 212, 2, 1534, 1535, 5, 425, 213, 2, 1535, 1536, 5, 439, 220, 2, 1536, 1537, 5, 425, 213, 2, 1537, 1538, 5, 455, 228, 2, 1538, 1539, 5, 425, 213, 2, 1539, 1540, 7, 34, 2, 2, 1540, 1541, 5, 461, 231, 2, 1541, 1542, 5, 431, 216, 2, 1542, 1543, 5, 425, 213, 2, 1543, 1544, 5, 451, 226, 2, 1544, 1545, 5, 425, 213, 2, 1545, 330, 3, 2, 2, 2, 1546, 1547, 5, 425, 213, 2, 1547, 1548, 5, 443, 222, 2, 1548, 1549, 5, 421, 211, 2, 1549, 1550, 5, 445, 223, 2, 1550, 1551, 5, 423, 212, 2, 1551, 1552, 5, 425, 213, 2, 1552, 1553, 7, 97, 2, 2, 1553, 1554, 5, 427, 214, 2, 1554, 1555, 5, 445, 223, 2, 1555, 1556, 5, 451, 226, 2, 1556, 1557, 7, 97, 2, 2, 1557, 1558, 5, 457, 229, 2, 1558, 1559, 5, 451, 226, 2, 1559, 1560, 5, 433, 217, 2, 1560, 332, 3, 2, 2, 2, 1561, 1562, 5, 441, 221, 2, 1562, 1563, 5, 423, 212, 2, 1563, 1564, 7, 55, 2, 2, 1564, 334, 3, 2, 2, 2, 1565, 1566, 5, 453, 227, 2, 1566, 1567, 5, 431, 216, 2, 1567, 1568, 5, 417, 209, 2, 1568, 1569, 7, 51, 2, 2, 1569, 336, 3, 2, 2, 2, 1570, 1571, 5, 453, 227, 2, 1571, 1572, 5, 431, 216, 2, 1572, 1573, 5, 417, 209, 2, 1573, 1574, 7, 52, 2, 2, 1574, 1575, 7, 55, 2, 2, 1575, 1576, 7, 56, 2, 2, 1576, 338, 3, 2, 2, 2, 1577, 1578, 5, 453, 227, 2, 1578, 1579, 5, 431, 216, 2, 1579, 1580, 5, 417, 209, 2, 1580, 1581, 7, 53, 2, 2, 1581, 1582, 7, 58, 2, 2, 1582, 1583, 7, 54, 2, 2, 1583, 340, 3, 2, 2, 2, 1584, 1585, 5, 453, 227, 2, 1585, 1586, 5, 431, 216, 2, 1586, 1587, 5, 417, 209, 2, 1587, 1588, 7, 55, 2, 2, 1588, 1589, 7, 51, 2, 2, 1589, 1590, 7, 52, 2, 2, 1590, 342, 3, 2, 2, 2, 1591, 1592, 5, 429, 215, 2, 1592, 1593, 5, 451, 226, 2, 1593, 1594, 5, 445, 223, 2, 1594, 1595, 5, 457, 229, 2, 1595, 1596, 5, 447, 224, 2, 1596, 1597, 7, 97, 2, 2, 1597, 1598, 5, 421, 211, 2, 1598, 1599, 5, 445, 223, 2, 1599, 1600, 5, 443, 222, 2, 1600, 1601, 5, 421, 211, 2, 1601, 1602, 5, 417, 209, 2, 1602, 1603, 5, 455, 228, 2, 1603, 344, 3, 2, 2, 2, 1604, 1608, 7, 62, 2, 2, 1605, 1607, 10, 2, 2, 2, 1606, 1605, 3, 2, 2, 2, 1607, 1610, 3, 2, 2, 2, 1608, 1606, 3, 2, 2, 2, 1608, 1609, 3, 2, 2, 2, 1609, 1611, 3, 2, 2, 2, 1610, 1608, 3, 2, 2, 2, 1611, 1612, 7, 64, 2, 2, 1612, 346, 3, 2, 2, 2, 1613, 1615, 5, 403, 202, 2, 1614, 1613, 3, 2, 2, 2, 1614, 1615, 3, 2, 2, 2, 1615, 1616, 3, 2, 2, 2, 1616, 1617, 7, 60, 2, 2, 1617, 348, 3, 2, 2, 2, 1618, 1619, 5, 347, 174, 2, 1619, 1620, 5, 405, 203, 2, 1620, 350, 3, 2, 2, 2, 1621, 1622, 7, 97, 2, 2, 1622, 1623, 7, 60, 2, 2, 1623, 1626, 3, 2, 2, 2, 1624, 1627, 5, 397, 199, 2, 1625, 1627, 9, 3, 2, 2, 1626, 1624, 3, 2, 2, 2, 1626, 1625, 3, 2, 2, 2, 1627, 1636, 3, 2, 2, 2, 1628, 1631, 5, 401, 201, 2, 1629, 1631, 7, 48, 2, 2, 1630, 1628, 3, 2, 2, 2, 1630, 1629, 3, 2, 2, 2, 1631, 1634, 3, 2, 2, 2, 1632, 1630, 3, 2, 2, 2, 1632, 1633, 3, 2, 2, 2, 1633, 1635, 3, 2, 2, 2, 1634, 1632, 3, 2, 2, 2, 1635, 1637, 5, 401, 201, 2, 1636, 1632, 3, 2, 2, 2, 1636, 1637, 3, 2, 2, 2, 1637, 352, 3, 2, 2, 2, 1638, 1639, 7, 65, 2, 2, 1639, 1640, 5, 399, 200, 2, 1640, 354, 3, 2, 2, 2, 1641, 1642, 7, 38, 2, 2, 1642, 1643, 5, 399, 200, 2, 1643, 356, 3, 2, 2, 2, 1644, 1646, 7, 66, 2, 2, 1645, 1647, 9, 4, 2, 2, 1646, 1645, 3, 2, 2, 2, 1647, 1648, 3, 2, 2, 2, 1648, 1646, 3, 2, 2, 2, 1648, 1649, 3, 2, 2, 2, 1649, 1658, 3, 2, 2, 2, 1650, 1652, 7, 47, 2, 2, 1651, 1653, 9, 5, 2, 2, 1652, 1651, 3, 2, 2, 2, 1653, 1654, 3, 2, 2, 2, 1654, 1652, 3, 2, 2, 2, 1654, 1655, 3, 2, 2, 2, 1655, 1657, 3, 2, 2, 2, 1656, 1650, 3, 2, 2, 2, 1657, 1660, 3, 2, 2, 2, 1658, 1656, 3, 2, 2, 2, 1658, 1659, 3, 2, 2, 2, 1659, 358, 3, 2, 2, 2, 1660, 1658, 3, 2, 2, 2, 1661, 1663, 9, 3, 2, 2, 1662, 1661, 3, 2, 2, 2, 1663, 1664, 3, 2, 2, 2, 1664, 1662, 3, 2, 2, 2, 1664, 1665, 3, 2, 2, 2, 1665, 360, 3, 2, 2, 2, 1666, 1668, 9, 3, 2, 2, 1667, 1666, 3, 2, 2, 2, 1668, 1671, 3, 2, 2, 2, 1669, 1667, 3, 2, 2, 2, 1669, 1670, 3, 2, 2, 2, 1670, 1672, 3, 2, 2, 2, 1671, 1669, 3, 2, 2, 2, 1672, 1674, 7, 48, 2, 2, 1673, 1675, 9, 3, 2, 2, 1674, 1673, 3, 2, 2, 2, 1675, 1676, 3, 2, 2, 2, 1676, 1674, 3, 2, 2, 2, 1676, 1677, 3, 2, 2, 2, 1677, 362, 3, 2, 2, 2, 1678, 1680, 9, 3, 2, 2, 1679, 1678, 3, 2, 2, 2, 1680, 1681, 3, 2, 2, 2, 1681, 1679, 3, 2, 2, 2, 1681, 1682, 3, 2, 2, 2, 1682, 1683, 3, 2, 2, 2, 1683, 1687, 7, 48, 2, 2, 1684, 1686, 9, 3, 2, 2, 1685, 1684, 3, 2, 2, 2, 1686, 1689, 3, 2, 2, 2, 1687, 1685, 3, 2, 2, 2, 1687, 1688, 3, 2, 2, 2, 1688, 1690, 3, 2, 2, 2, 1689, 1687, 3, 2, 2, 2, 1690, 1705, 5, 377, 189, 2, 1691, 1693, 7, 48, 2, 2, 1692, 1694, 9, 3, 2, 2, 1693, 1692, 3, 2, 2, 2, 1694, 1695, 3, 2, 2, 2, 1695, 1693, 3, 2, 2, 2, 1695, 1696, 3, 2, 2, 2, 1696, 1697, 3, 2, 2, 2, 1697, 1705, 5, 377, 189, 2, 1698, 1700, 9, 3, 2, 2, 1699, 1698, 3, 2, 2, 2, 1700, 1701, 3, 2, 2, 2, 1701, 1699, 3, 2, 2, 2, 1701, 1702, 3, 2, 2, 2, 1702, 1703, 3, 2, 2, 2, 1703, 1705, 5, 377, 189, 2, 1704, 1679, 3, 2, 2, 2, 1704, 1691, 3, 2, 2, 2, 1704, 1699, 3, 2, 2, 2, 1705, 364, 3, 2, 2, 2, 1706, 1707, 7, 45, 2, 2, 1707, 1708, 5, 359, 180, 2, 1708, 366, 3, 2, 2, 2, 1709, 1710, 7, 45, 2, 2, 1710, 1711, 5, 361, 181, 2, 1711, 368, 3, 2, 2, 2, 1712, 1713, 7, 45, 2, 2, 1713, 1714, 5, 363, 182, 2, 1714, 370, 3, 2, 2, 2, 1715, 1716, 7, 47, 2, 2, 1716, 1717, 5, 359, 180, 2, 1717, 372, 3, 2, 2, 2, 1718, 1719, 7, 47, 2, 2, 1719, 1720, 5, 361, 181, 2, 1720, 374, 3, 2, 2, 2, 1721, 1722, 7, 47, 2, 2, 1722, 1723, 5, 363, 182, 2, 1723, 376, 3, 2, 2, 2, 1724, 1726, 9, 6, 2, 2, 1725, 1727, 9, 7, 2, 2, 1726, 1725, 3, 2, 2, 2, 1726, 1727, 3, 2, 2, 2, 1727, 1729, 3, 2, 2, 2, 1728, 1730, 9, 3, 2, 2, 1729, 1728, 3, 2, 2, 2, 1730, 1731, 3, 2, 2, 2, 1731, 1729, 3, 2, 2, 2, 1731, 1732, 3, 2, 2, 2, 1732, 378, 3, 2, 2, 2, 1733, 1738, 7, 41, 2, 2, 1734, 1737, 10, 8, 2, 2, 1735, 1737, 5, 387, 194, 2, 1736, 1734, 3, 2, 2, 2, 1736, 1735, 3, 2, 2, 2, 1737, 1740, 3, 2, 2, 2, 1738, 1736, 3, 2, 2, 2, 1738, 1739, 3, 2, 2, 2, 1739, 1741, 3, 2, 2, 2, 1740, 1738, 3, 2, 2, 2, 1741, 1742, 7, 41, 2, 2, 1742, 380, 3, 2, 2, 2, 1743, 1748, 7, 36, 2, 2, 1744, 1747, 10, 9, 2, 2, 1745, 1747, 5, 387, 194, 2, 1746, 1744, 3, 2, 2, 2, 1746, 1745, 3, 2, 2, 2, 1747, 1750, 3, 2, 2, 2, 1748, 1746, 3, 2, 2, 2, 1748, 1749, 3, 2, 2, 2, 1749, 1751, 3, 2, 2, 2, 1750, 1748, 3, 2, 2, 2, 1751, 1752, 7, 36, 2, 2, 1752, 382, 3, 2, 2, 2, 1753, 1754, 7, 41, 2, 2, 1754, 1755, 7, 41, 2, 2, 1755, 1756, 7, 41, 2, 2, 1756, 1768, 3, 2, 2, 2, 1757, 1761, 7, 41, 2, 2, 1758, 1759, 7, 41, 2, 2, 1759, 1761, 7, 41, 2, 2, 1760, 1757, 3, 2, 2, 2, 1760, 1758, 3, 2, 2, 2, 1760, 1761, 3, 2, 2, 2, 1761, 1764, 3, 2, 2, 2, 1762, 1765, 10, 10, 2, 2, 1763, 1765, 5, 387, 194, 2, 1764, 1762, 3, 2, 2, 2, 1764, 1763, 3, 2, 2, 2, 1765, 1767, 3, 2, 2, 2, 1766, 1760, 3, 2, 2, 2, 1767, 1770, 3, 2, 2, 2, 1768, 1766, 3, 2, 2, 2, 1768, 1769, 3, 2, 2, 2, 1769, 1771, 3, 2, 2, 2, 1770, 1768, 3, 2, 2, 2, 1771, 1772, 7, 41, 2, 2, 1772, 1773, 7, 41, 2, 2, 1773, 1774, 7, 41, 2, 2, 1774, 384, 3, 2, 2, 2, 1775, 1776, 7, 36, 2, 2, 1776, 1777, 7, 36, 2, 2, 1777, 1778, 7, 36, 2, 2, 1778, 1790, 3, 2, 2, 2, 1779, 1783, 7, 36, 2, 2, 1780, 1781, 7, 36, 2, 2, 1781, 1783, 7, 36, 2, 2, 1782, 1779, 3, 2, 2, 2, 1782, 1780, 3, 2, 2, 2, 1782, 1783, 3, 2, 2, 2, 1783, 1786, 3, 2, 2, 2, 1784, 1787, 10, 11, 2, 2, 1785, 1787, 5, 387, 194, 2, 1786, 1784, 3, 2, 2, 2, 1786, 1785, 3, 2, 2, 2, 1787, 1789, 3, 2, 2, 2, 1788, 1782, 3, 2, 2, 2, 1789, 1792, 3, 2, 2, 2, 1790, 1788, 3, 2, 2, 2, 1790, 1791, 3, 2, 2, 2, 1791, 1793, 3, 2, 2, 2, 1792, 1790, 3, 2, 2, 2, 1793, 1794, 7, 36, 2, 2, 1794, 1795, 7, 36, 2, 2, 1795, 1796, 7, 36, 2, 2, 1796, 386, 3, 2, 2, 2, 1797, 1798, 7, 94, 2, 2, 1798, 1799, 9, 12, 2, 2, 1799, 388, 3, 2, 2, 2, 1800, 1804, 7, 42, 2, 2, 1801, 1803, 5, 391, 196, 2, 1802, 1801, 3, 2, 2, 2, 1803, 1806, 3, 2, 2, 2, 1804, 1802, 3, 2, 2, 2, 1804, 1805, 3, 2, 2, 2, 1805, 1807, 3, 2, 2, 2, 1806, 1804, 3, 2, 2, 2, 1807, 1808, 7, 43, 2, 2, 1808, 390, 3, 2, 2, 2, 1809, 1810, 9, 13, 2, 2, 1810, 1811, 3, 2, 2, 2, 1811, 1812, 8, 196, 2, 2, 1812, 392, 3, 2, 2, 2, 1813, 1817, 7, 93, 2, 2, 1814, 1816, 5, 391, 196, 2, 1815, 1814, 3, 2, 2, 2, 1816, 1819, 3, 2, 2, 2, 1817, 1815, 3, 2, 2, 2, 1817, 1818, 3, 2, 2, 2, 1818, 1820, 3, 2, 2, 2, 1819, 1817, 3, 2, 2, 2, 1820, 1821, 7, 95, 2, 2, 1821, 394, 3, 2, 2, 2, 1822, 1824, 9, 45, 2, 2, 1823, 1822, 3, 2, 2, 2, 1824, 396, 3, 2, 2, 2, 1825, 1828, 5, 395, 198, 2, 1826, 1828, 7, 97, 2, 2, 1827, 1825, 3, 2, 2, 2, 1827, 1826, 3, 2, 2, 2, 1828, 398, 3, 2, 2, 2, 1829, 1832, 5, 397, 199, 2, 1830, 1832, 9, 3, 2, 2, 1831, 1829, 3, 2, 2, 2, 1831, 1830, 3, 2, 2, 2, 1832, 1837, 3, 2, 2, 2, 1833, 1836, 5, 397, 199, 2, 1834, 1836, 9, 14, 2, 2, 1835, 1833, 3, 2, 2, 2, 1835, 1834, 3, 2, 2, 2, 1836, 1839, 3, 2, 2, 2, 1837, 1835, 3, 2, 2, 2, 1837, 1838, 3, 2, 2, 2, 1838, 400, 3, 2, 2, 2, 1839, 1837, 3, 2, 2, 2, 1840, 1843, 5, 397, 199, 2, 1841, 1843, 9, 15, 2, 2, 1842, 1840, 3, 2, 2, 2, 1842, 1841, 3, 2, 2, 2, 1843, 402, 3, 2, 2, 2, 1844, 1853, 5, 395, 198, 2, 1845, 1848, 5, 401, 201, 2, 1846, 1848, 7, 48, 2, 2, 1847, 1845, 3, 2, 2, 2, 1847, 1846, 3, 2, 2, 2, 1848, 1851, 3, 2, 2, 2, 1849, 1847, 3, 2, 2, 2, 1849, 1850, 3, 2, 2, 2, 1850, 1852, 3, 2, 2, 2, 1851, 1849, 3, 2, 2, 2, 1852, 1854, 5, 401, 201, 2, 1853, 1849, 3, 2, 2, 2, 1853, 1854, 3, 2, 2, 2, 1854, 404, 3, 2, 2, 2, 1855, 1859, 5, 397, 199, 2, 1856, 1859, 4, 50, 60, 2, 1857, 1859, 5, 407, 204, 2, 1858, 1855, 3, 2, 2, 2, 1858, 1856, 3, 2, 2, 2, 1858, 1857, 3, 2, 2, 2, 1859, 1873, 3, 2, 2, 2, 1860, 1864, 5, 401, 201, 2, 1861, 1864, 9, 16, 2, 2, 1862, 1864, 5, 407, 204, 2, 1863, 1860, 3, 2, 2, 2, 1863, 1861, 3, 2, 2, 2, 1863, 1862, 3, 2, 2, 2, 1864, 1867, 3, 2, 2, 2, 1865, 1863, 3, 2, 2, 2, 1865, 1866, 3, 2, 2, 2, 1866, 1871, 3, 2, 2, 2, 1867, 1865, 3, 2, 2, 2, 1868, 1872, 5, 401, 201, 2, 1869, 1872, 7, 60, 2, 2, 1870, 1872, 5, 407, 204, 2, 1871, 1868, 3, 2, 2, 2, 1871, 1869, 3, 2, 2, 2, 1871, 1870, 3, 2, 2, 2, 1872, 1874, 3, 2, 2, 2, 1873, 1865, 3, 2, 2, 2, 1873, 1874, 3, 2, 2, 2, 1874, 406, 3, 2, 2, 2, 1875, 1878, 5, 409, 205, 2, 1876, 1878, 5, 413, 207, 2, 1877, 1875, 3, 2, 2, 2, 1877, 1876, 3, 2, 2, 2, 1878, 408, 3, 2, 2, 2, 1879, 1880, 7, 39, 2, 2, 1880, 1881, 5, 411, 206, 2, 1881, 1882, 5, 411, 206, 2, 1882, 410, 3, 2, 2, 2, 1883, 1885, 9, 17, 2, 2, 1884, 1883, 3, 2, 2, 2, 1885, 412, 3, 2, 2, 2, 1886, 1887, 7, 94, 2, 2, 1887, 1888, 9, 18, 2, 2, 1888, 414, 3, 2, 2, 2, 1889, 1893, 7, 37, 2, 2, 1890, 1892, 10, 19, 2, 2, 1891, 1890, 3, 2, 2, 2, 1892, 1895, 3, 2, 2, 2, 1893, 1891, 3, 2, 2, 2, 1893, 1894, 3, 2, 2, 2, 1894, 1896, 3, 2, 2, 2, 1895, 1893, 3, 2, 2, 2, 1896, 1897, 8, 208, 3, 2, 1897, 416, 3, 2, 2, 2, 1898, 1899, 9, 20, 2, 2, 1899, 418, 3, 2, 2, 2, 1900, 1901, 9, 21, 2, 2, 1901, 420, 3, 2, 2, 2, 1902, 1903, 9, 22, 2, 2, 1903, 422, 3, 2, 2, 2, 1904, 1905, 9, 23, 2, 2, 1905, 424, 3, 2, 2, 2, 1906, 1907, 9, 6, 2, 2, 1907, 426, 3, 2, 2, 2, 1908, 1909, 9, 24, 2, 2, 1909, 428, 3, 2, 2, 2, 1910, 1911, 9, 25, 2, 2, 1911, 430, 3, 2, 2, 2, 1912, 1913, 9, 26, 2, 2, 1913, 432, 3, 2, 2, 2, 1914, 1915, 9, 27, 2, 2, 1915, 434, 3, 2, 2, 2, 1916, 1917, 9, 28, 2, 2, 1917, 436, 3, 2, 2, 2, 1918, 1919, 9, 29, 2, 2, 1919, 438, 3, 2, 2, 2, 1920, 1921, 9, 30, 2, 2, 1921, 440, 3, 2, 2, 2, 1922, 1923, 9, 31, 2, 2, 1923, 442, 3, 2, 2, 2, 1924, 1925, 9, 32, 2, 2, 1925, 444, 3, 2, 2, 2, 1926, 1927, 9, 33, 2, 2, 1927, 446, 3, 2, 2, 2, 1928, 1929, 9, 34, 2, 2, 1929, 448, 3, 2, 2, 2, 1930, 1931, 9, 35, 2, 2, 1931, 450, 3, 2, 2, 2, 1932, 1933, 9, 36, 2, 2, 1933, 452, 3, 2, 2, 2, 1934, 1935, 9, 37, 2, 2, 1935, 454, 3, 2, 2, 2, 1936, 1937, 9, 38, 2, 2, 1937, 456, 3, 2, 2, 2, 1938, 1939, 9, 39, 2, 2, 1939, 458, 3, 2, 2, 2, 1940, 1941, 9, 40, 2, 2, 1941, 460, 3, 2, 2, 2, 1942, 1943, 9, 41, 2, 2, 1943, 462, 3, 2, 2, 2, 1944, 1945, 9, 42, 2, 2, 1945, 464, 3, 2, 2, 2, 1946, 1947, 9, 43, 2, 2, 1947, 466, 3, 2, 2, 2, 1948, 1949, 9, 44, 2, 2, 1949, 468, 3, 2, 2, 2, 51, 2, 1608, 1614, 1626, 1630, 1632, 1636, 1648, 1654, 1658, 1664, 1669, 1676, 1681, 1687, 1695, 1701, 1704, 1726, 1731, 1736, 1738, 1746, 1748, 1760, 1764, 1768, 1782, 1786, 1790, 1804, 1817, 1823, 1827, 1831, 1835, 1837, 1842, 1847, 1849, 1853, 1858, 1863, 1865, 1871, 1873, 1877, 1884, 1893, 4, 8, 2, 2, 2, 3, 2]
\ No newline at end of file
-- 
2.43.0


From 07f5b05d19d8603d3a97204a4db7bb286e4cc49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 45/86] fix: string literals in queries were used with their
 quotes and escapes as written

---
 Parser/QueryParser.cpp | 49 ++++++++++++++++++++++++++++++++++++------
 Parser/QueryParser.h   |  1 +
 2 files changed, 44 insertions(+), 6 deletions(-)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index f6af0ce..a209d4a 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -666,7 +666,7 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 			curr_node.oprt = "";
 			// curr_node.lchild = NULL;
 			// curr_node.rchild = NULL;
-			curr_node.val = root->getText();
+			curr_node.val = getLiteral(root->getText());
 		}
 		else if (((SPARQLParser::PrimaryexpressionContext *)root)->numericLiteral())
 		{
@@ -1643,6 +1643,43 @@ string QueryParser::getNumeric(SPARQLParser::NumericLiteralContext *ctx)
 	return ret;
 }
 
+/**
+	Helper function that brings a literal into the form in which it is stored: in double quotes, 
+	escapes decoded. Other terms are returned unchanged.
+
+	@param text text of a term in the query.
+	@return string of the resulting term.
+*/
+string QueryParser::getLiteral(const string &text)
+{
+	if (text.empty() || (text[0] != '"' && text[0] != '\''))
+		return text;
+
+	size_t quoteNum = (text.length() >= 6 && text[1] == text[0] && text[2] == text[0]) ? 3 : 1;
+	string quote(quoteNum, text[0]), val, suffix;
+	size_t i = quoteNum;
+	for (; i < text.length() && text.compare(i, quoteNum, quote) != 0; i++)
+	{
+		if (text[i] != '\\' || i + 1 == text.length())
+		{
+			val += text[i];
+			continue;
+		}
+		switch (text[++i])
+		{
+			case 't': val += '\t'; break;
+			case 'b': val += '\b'; break;
+			case 'n': val += '\n'; break;
+			case 'r': val += '\r'; break;
+			case 'f': val += '\f'; break;
+			default: val += text[i];
+		}
+	}
+	if (i + quoteNum < text.length())
+		suffix = text.substr(i + quoteNum);
+	return "\"" + val + "\"" + suffix;
+}
+
 /**
 	Helper function that checks ranges for integer types, and get rids of NaN for float types.
 	Wrapper of getText.
@@ -1653,12 +1690,12 @@ string QueryParser::getNumeric(SPARQLParser::NumericLiteralContext *ctx)
 
 string QueryParser::getTextWithRange(antlr4::tree::ParseTree *ctx)
 {
-	string baseText = ctx->getText(), suffix, val;
-	size_t sufIdx = baseText.find("^^");
-	if (baseText.empty() || baseText[0] != '"' || sufIdx == string::npos)
+	string baseText = getLiteral(ctx->getText()), suffix, val;
+	size_t sufIdx = baseText.rfind('"');
+	if (baseText.empty() || baseText[0] != '"' || baseText.compare(sufIdx, 3, "\"^^") != 0)
 		return baseText;
-	suffix = baseText.substr(sufIdx + 2);
-	val = baseText.substr(1, sufIdx - 2);
+	suffix = baseText.substr(sufIdx + 3);
+	val = baseText.substr(1, sufIdx - 1);
 	replacePrefix(suffix);
 	baseText = '"' + val + "\"^^" + suffix;
 	long long ll;
diff --git a/Parser/QueryParser.h b/Parser/QueryParser.h
index 6606bcb..dd3720f 100644
--- a/Parser/QueryParser.h
+++ b/Parser/QueryParser.h
@@ -79,6 +79,7 @@ public:
 	void replacePrefix(std::string &str);
 	std::string getNumeric(SPARQLParser::NumericLiteralContext *ctx);
 	std::string getTextWithRange(antlr4::tree::ParseTree *ctx);
+	std::string getLiteral(const std::string &text);
 
 	void printNode(antlr4::ParserRuleContext *ctx, const char *nodeTypeName);
 	void printTree(antlr4::tree::ParseTree *root, int dep);
-- 
2.43.0


From 7cc61a3f713c547c56d8222b80189f417c4cae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:02 +0000
Subject: [PATCH 46/86] fix: prefixed names inside expressions were not
 expanded

---
 Parser/QueryParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parser/QueryParser.cpp b/Parser/QueryParser.cpp
index a209d4a..529529f 100644
--- a/Parser/QueryParser.cpp
+++ b/Parser/QueryParser.cpp
@@ -701,6 +701,7 @@ void QueryParser::buildCompTree(antlr4::tree::ParseTree *root, int oper_pos, Com
 				// curr_node.lchild = NULL;
 				// curr_node.rchild = NULL;
 				curr_node.val = root->getText();
+				replacePrefix(curr_node.val);
 			}
 		}
 	}
-- 
2.43.0


From 3c92458137a317dda5029c24a663a3faa812afaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:06 +0000
Subject: [PATCH 47/86] fix: a datatype written with the empty prefix was not
 parsed

---
 Parser/TurtleParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Parser/TurtleParser.cpp b/Parser/TurtleParser.cpp
index d68fa25..f3e0a97 100644
--- a/Parser/TurtleParser.cpp
+++ b/Parser/TurtleParser.cpp
@@ -653,6 +653,7 @@ void TurtleParser::parseObject(std::string& object,Type::ID& objectType,std::str
                if (token==Lexer::URI) {
                   // Already parsed
                } else if (token==Lexer::Colon) {
+                  lexer.unget(token,type);
                   parseQualifiedName("",type);
                } else if (token==Lexer::Name) {
                   parseQualifiedName(type,type);
-- 
2.43.0


From 3347a1376ae243e810f26ea746c29434ce990d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 48/86] fix: the JSON form of a literal was split inside its
 content

---
 Query/ResultSet.cpp | 66 +++++++--------------------------------------
 1 file changed, 10 insertions(+), 56 deletions(-)

diff --git a/Query/ResultSet.cpp b/Query/ResultSet.cpp
index 51a5650..f7f1886 100644
--- a/Query/ResultSet.cpp
+++ b/Query/ResultSet.cpp
@@ -392,11 +392,6 @@ ResultSet::to_JSON()
 		this->resetStream();
 
 	const Bstr* bp = NULL;
-	// match ^^<*> string
-	regex dataTypePattern("\\^\\^<(\\S*?)[^>]*>.*?|<.*? />");
-	smatch matchResult;
-	string::const_iterator iterStart;
-	string::const_iterator iterEnd;
 	for(long long i = (!this->useStream ? this->output_offset : 0LL); i < this->ansNum; i++)
 	{
 		if (this->output_limit != -1 && i == this->output_offset + this->output_limit)
@@ -434,61 +429,20 @@ ResultSet::to_JSON()
 				}
 				else if (ans_str[0] == '"')
 				{
-					if (ans_str.find("\"^^<") == string::npos)
+					// the last quote ends the content: a language tag or a datatype follows it
+					size_t pos = ans_str.rfind('"');
+					string suffix = ans_str.substr(pos + 1);
+					ans_type = "literal";
+					if (suffix.size() > 4 && suffix.compare(0, 3, "^^<") == 0)
 					{
-						if (ans_str.find("\"@") != string::npos)
-						{
-							//for language string
-							ans_type = "literal";
-							lang = ans_str.substr(ans_str.rfind("@")+1, ans_str.length());
-							ans_str = ans_str.substr(1, ans_str.rfind('"') - 1);
-						}
-						else
-						{
-							//no has type string
-							ans_type = "literal";
-							ans_str = ans_str.substr(1, ans_str.rfind('"') - 1);
-						}
+						ans_type = "typed-literal";
+						data_type = suffix.substr(3, suffix.size() - 4);
 					}
-					else
+					else if (suffix.compare(0, 1, "@") == 0)
 					{
-						
-						if (ans_str[ans_str.length() - 1] == '>')
-						{
-							ans_type = "typed-literal";
-							int pos = ans_str.find("\"^^<");
-							// string data_type = ans_str.substr(pos + 4, ans_str.length() - pos - 5);
-							iterStart = ans_str.begin();
-							iterEnd = ans_str.end();
-							while (regex_search(iterStart, iterEnd, matchResult, dataTypePattern))
-							{
-								data_type = matchResult[0];
-								break;
-							}
-							if (data_type.length() > 4)
-							{
-								// remove ^^<>
-								data_type = data_type.substr(3, data_type.length()-4);
-								if (data_type.find("^^<") != string::npos)
-								{
-									data_type = "http://www.w3.org/2001/XMLSchema#string-complete";
-								}
-							}
-							else
-							{
-								data_type = "http://www.w3.org/2001/XMLSchema#string-complete";
-							}
-							ans_str = ans_str.substr(1, pos-1);
-						}
-						else
-						{
-							// the entity value is not complete
-							ans_type = "typed-literal";
-							int pos = ans_str.find("\"^^<");
-							data_type = "http://www.w3.org/2001/XMLSchema#string-not-complete";
-							ans_str = ans_str.substr(1, pos-1);
-						}
+						lang = suffix.substr(1);
 					}
+					ans_str = pos > 0 ? ans_str.substr(1, pos - 1) : ans_str.substr(1);
 				}
 				else if (ans_str[0] == '\'') 
 				{
-- 
2.43.0


From e852e509384c2b0b2a79940c6eab1f8422390fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 49/86] fix: printing an ordered result a second time read past
 its stream

---
 Query/ResultSet.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Query/ResultSet.cpp b/Query/ResultSet.cpp
index f7f1886..abc5b10 100644
--- a/Query/ResultSet.cpp
+++ b/Query/ResultSet.cpp
@@ -538,6 +538,7 @@ ResultSet::output(FILE* _fp)
 		}
 		fprintf(_fp, "\n");
 
+		this->resetStream();
 		const Bstr* bp;
 		for(long long i = 0; i < this->ansNum; i++)
 		{
@@ -612,6 +613,7 @@ ResultSet::prettyPrint()
 	}
 	if (this->useStream)
 	{
+		this->resetStream();
 		const Bstr* bp;
 		for(long long i = 0; i < this->ansNum; i++)
 		{
-- 
2.43.0


From 1da58e3931ef189a1e2bc409d448de4ae6a70f29 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 50/86] fix: undirected cyclePath reports the direction of the
 edges it walks in reverse

---
 Query/PathQueryHandler.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 4f6e46a..1fed3e1 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -581,12 +581,13 @@ std::vector<int> PathQueryHandler::cycle(int uid, int vid, bool directed,
 		// 	ans.push_back(s.top());
 		// 	s.pop();
 		// }
-		ans = shortestPath0(uid, vid, false, pred_set);
+		ans = shortestPath(uid, vid, false, pred_set);
 		int lens = ans.size();
 		if (lens == 0)
 			return ans;
+		// walk the same edges back: an edge that was followed forwards is now followed in reverse, and the other way round
 		for (int i = lens - 2; i > 0; --i)
-			ans.push_back(ans[i]);
+			ans.push_back(i % 2 == 1 ? -ans[i] - 1 : ans[i]);
 		ans.push_back(uid);
 		return ans;
 	}
-- 
2.43.0


From ed414c40dcbd2fa0697cc61dec5c25c49529599f Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 51/86] fix: undirected SSSP reports the direction of the edges
 it follows in reverse

---
 Query/PathQueryHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 1fed3e1..ef7f705 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -2175,7 +2175,7 @@ unordered_map<int, vector<int>> PathQueryHandler::SSSP(int uid, bool directed, c
 				{
 					vis.insert(to);
 					res[to] = res[vid];
-					res[to].push_back(pred);
+					res[to].push_back(-pred - 1);	// reverse edge
 					res[to].push_back(to);
 					Q.push(to);
 				}
-- 
2.43.0


From 92462aa9e2111b1bca01f7170dcc566db0807bad Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 52/86] fix: closenessCentrality of a vertex that reaches no
 other vertex is 0, not nan

---
 Query/PathQueryHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index ef7f705..1ec57cd 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -1954,6 +1954,8 @@ double PathQueryHandler::closenessCentrality(int uid, bool directed, const std::
 			}
 		}
 	}
+	if (sum == 0)	// no other vertex is reachable
+		return 0;
 	return 1.0 * (cnt - 1) / sum;
 }
 
-- 
2.43.0


From a766e2cb6938d77a3c384f18a03cf5b36e971ad5 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 53/86] fix: kHopReachable follows in-edges where it means to
 and expands the backward frontier

---
 Query/PathQueryHandler.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 1ec57cd..8afe908 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -1236,7 +1236,7 @@ bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, con
 				int num_in = getInSize(curNode, pred);
 				for (int i = 0; i < num_in; i++)
 				{
-					int adj = getOutVertID(curNode, pred, i);
+					int adj = getInVertID(curNode, pred, i);
 					if (f1.find(adj) == f1.end())
 					{
 						f1[adj] = fullL1;
@@ -1370,7 +1370,7 @@ bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, con
 				int num_in = getInSize(curNode, pred);
 				for (int i = 0; i < num_in; i++)
 				{
-					int adj = getOutVertID(curNode, pred, i);
+					int adj = getInVertID(curNode, pred, i);
 					if (f2.find(adj) == f2.end())
 					{
 						f2[adj] = fullL2;
@@ -1378,7 +1378,7 @@ bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, con
 							return true;
 						if (f1.find(adj) != f1.end() && f1[adj] + f2[adj] <= k)
 							return true;
-						fwdQ_next.push(adj);
+						bwdQ_next.push(adj);
 					}
 				}
 
@@ -1396,7 +1396,7 @@ bool PathQueryHandler::kHopReachable(int uid, int vid, bool directed, int k, con
 							return true;
 						if (f1.find(adj) != f1.end() && f1[adj] + f2[adj] <= k)
 							return true;
-						fwdQ_next.push(adj);
+						bwdQ_next.push(adj);
 					}
 				}
 			}
-- 
2.43.0


From b685e27fdd60e00dad6a5bfb3c9c228dec8496f1 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 54/86] fix: directed triangleCounting counts a triangle once
 however many predicates label its edges

---
 Query/PathQueryHandler.cpp | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 8afe908..ee126df 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -1842,22 +1842,27 @@ long long PathQueryHandler::triangleCounting(bool directed, const std::vector<in
 		// the size of the intersection is the # of triangles
 		if (directed)
 		{
+			// distinct neighbors: several predicates may label edges between the same two vertices
+			unordered_set<int> outSet;
 			for (int pred : pred_set)
 			{
 				int outSize = getOutSize(vid, pred);
 				for (int j = 0; j < outSize; j++)
+					outSet.insert(getOutVertID(vid, pred, j));
+			}
+			for (int outNode : outSet)
+			{
+				unordered_set<int> outOutSet;
+				for (int pd : pred_set)
 				{
-					int outNode = getOutVertID(vid, pred, j);
-					for (int pd : pred_set)
-					{
-						int outOutSize = getOutSize(outNode, pd);
-						for (int k = 0; k < outOutSize; k++)
-						{
-							int outOutNode = getOutVertID(outNode, pd, k);
-							if (inSet.find(outOutNode) != inSet.end())
-								numTriangle++;
-						}
-					}
+					int outOutSize = getOutSize(outNode, pd);
+					for (int k = 0; k < outOutSize; k++)
+						outOutSet.insert(getOutVertID(outNode, pd, k));
+				}
+				for (int outOutNode : outOutSet)
+				{
+					if (inSet.find(outOutNode) != inSet.end())
+						numTriangle++;
 				}
 			}
 		}
-- 
2.43.0


From 6419a06f63568fa96700d3087985cc94d61bf9f7 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 55/86] fix: directed clusterCoeff counts a triangle once
 however many predicates label its edges

---
 Query/PathQueryHandler.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index ee126df..d04e7ac 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -2567,24 +2567,31 @@ double PathQueryHandler::clusteringCoeff(int uid, bool directed, const std::vect
 			}
 		}
 
+		// distinct neighbors: several predicates may label edges between the same two vertices
+		unordered_set<int> outSet;
 		for (int pred : pred_set)
 		{
 			int outSize = getOutSize(uid, pred);
 			for (int j = 0; j < outSize; j++)
 			{
 				int outNode = getOutVertID(uid, pred, j);
-				if (!neighbors.count(outNode))
-					neighbors.insert(outNode);
-				for (int pd : pred_set) // all out neighbors
-				{
-					int outOutSize = getOutSize(outNode, pd);
-					for (int k = 0; k < outOutSize; k++)
-					{
-						int outOutNode = getOutVertID(outNode, pd, k);
-						if (inSet.count(outOutNode))
-							dins++; // directed neighbors size
-					}
-				}
+				outSet.insert(outNode);
+				neighbors.insert(outNode);
+			}
+		}
+		for (int outNode : outSet)
+		{
+			unordered_set<int> outOutSet;
+			for (int pd : pred_set) // all out neighbors
+			{
+				int outOutSize = getOutSize(outNode, pd);
+				for (int k = 0; k < outOutSize; k++)
+					outOutSet.insert(getOutVertID(outNode, pd, k));
+			}
+			for (int outOutNode : outOutSet)
+			{
+				if (inSet.count(outOutNode))
+					dins++; // directed neighbors size
 			}
 		}
 		int ns = neighbors.size(); // indirected neighbors size
-- 
2.43.0


From e43bd7a67e509b37d7f50ce4cfff16927e829a97 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 00:25:53 +0000
Subject: [PATCH 56/86] fix: kHopReachable and clusterCoeff separate the
 answers for several sources by commas

---
 Query/GeneralEvaluation.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 8d9a947..51ba78f 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -3101,6 +3101,10 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 									if (hopConstraint < 0)
 										hopConstraint = 999;
 									bool reachRes = pqHandler->kHopReachable(uid, vid, proj[i].path_args.directed, hopConstraint, pred_id_set);
+									if (notFirstOutput)
+										ss << ",";
+									else
+										notFirstOutput = 1;
 									ss << "{\"src\":\"" << kvstore->getStringByID(uid) << "\",\"dst\":\"" \
 										<< kvstore->getStringByID(vid) << "\",\"value\":";
 									cout << "src = " << kvstore->getStringByID(uid) << ", dst = " << kvstore->getStringByID(vid) << endl;
@@ -3324,6 +3328,10 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 									else
 									{
 										auto ret = pqHandler->clusteringCoeff(uid, proj[i].path_args.directed, pred_id_set);
+										if (notFirstOutput)
+											ss << ",";
+										else
+											notFirstOutput = 1;
 										ss << "{\"src\":\"" << kvstore->getStringByID(uid) << "\",\"result\":";
 										ss << to_string(ret) << "}";
 									}
-- 
2.43.0


From 8765c48aee5a9c7b2771fb00fe0150d28022bcd0 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 00:27:03 +0000
Subject: [PATCH 57/86] fix: graph functions read out of bounds and missed
 vertices when entity IDs have gaps

---
 Database/CSR.cpp            |  9 +++++++
 Database/CSR.h              |  3 ++-
 Database/Database.cpp       |  4 ++--
 Query/GeneralEvaluation.cpp |  8 +------
 Query/PathQueryHandler.cpp  | 47 ++++++++++++++++++++++++++++---------
 Query/PathQueryHandler.h    |  3 ++-
 6 files changed, 52 insertions(+), 22 deletions(-)

diff --git a/Database/CSR.cpp b/Database/CSR.cpp
index 1141257..967c14f 100644
--- a/Database/CSR.cpp
+++ b/Database/CSR.cpp
@@ -36,6 +36,15 @@ void CSR::init(unsigned pnum)
 	// this->valid = new bool[this->pre_num];
 }
 
+unsigned CSR::idBound() const
+{
+	unsigned bound = 0;
+	for (unsigned i = 0; i < this->pre_num; i++)
+		if (!this->vid2id[i].empty())
+			bound = std::max(bound, this->vid2id[i].rbegin()->first + 1);
+	return bound;
+}
+
 // void CSR::compress(unsigned w)
 // {
 // 	for(unsigned i=0; i<this->pre_num; ++i)
diff --git a/Database/CSR.h b/Database/CSR.h
index df5ed57..5dac3aa 100644
--- a/Database/CSR.h
+++ b/Database/CSR.h
@@ -20,7 +20,7 @@ class CSR
 public:
 	unsigned pre_num;
 	unsigned w;
-	unsigned n,m;
+	unsigned n,m;	// n: one more than the largest vertex ID (IDs may have gaps), m: number of edges
 
 	// One for each predicate
 	std::vector<unsigned> *id2vid;	// Index to subject/object ID
@@ -32,6 +32,7 @@ public:
 	CSR(unsigned pnum);
 	~CSR();
 	void init(unsigned pnum);
+	unsigned idBound() const;	// One more than the largest ID that has edges here
 	// void compress(unsigned w);
 
 	void print();	// Feel free to modify this for testing
diff --git a/Database/Database.cpp b/Database/Database.cpp
index 4c3132c..4b07e7d 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -877,7 +877,7 @@ bool Database::load(Socket &socket, bool loadCSR)
 			cout << this->csr[1].offset_list[i].size() << endl;
 			cout << this->csr[1].adjacency_list[i].size() << endl;
 		}
-		csr[1].n = this->entity_num;
+		csr[1].n = std::max(csr[0].idBound(), csr[1].idBound());
 
 		unsigned ret = 0;
 		for (int i = 0; i < csr[1].pre_num; i++)	// Same as summing that of csr[0]
@@ -1137,7 +1137,7 @@ bool Database::load(bool loadCSR)
 			cout << this->csr[1].offset_list[i].size() << endl;
 			cout << this->csr[1].adjacency_list[i].size() << endl;
 		}
-		csr[1].n = this->entity_num;
+		csr[1].n = std::max(csr[0].idBound(), csr[1].idBound());
 
 		unsigned ret = 0;
 		for (auto i = 0; i < csr[1].pre_num; i++)	// Same as summing that of csr[0]
diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 51ba78f..5af3c19 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -228,13 +228,7 @@ GeneralEvaluation::loadCSR()
 		cout<<csr[1].adjacency_list[i].size()<<endl;
 	}
 	// init vertices and edges num
-	set<int> vertices;
-	for (int j = 0; j < 2; j++)
-	{
-		for (unsigned i = 0; i < csr[j].pre_num; i++)
-			vertices.insert(csr[j].adjacency_list[i].begin(), csr[j].adjacency_list[i].end());
-	}
-	csr[1].n = vertices.size();
+	csr[1].n = std::max(csr[0].idBound(), csr[1].idBound());
 
 	unsigned ret = 0;
 	for (auto i = 0; i < csr[1].pre_num; i++)	// Same as summing that of csr[0]
diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index d04e7ac..1cc6fb2 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -35,6 +35,14 @@ int PathQueryHandler::getVertNum()
 	return csr[1].n;
 }
 
+bool PathQueryHandler::hasEdge(int vid)
+{
+	for (unsigned pred = 0; pred < csr[1].pre_num; pred++)
+		if (getOutIndexByID(vid, pred) != -1 || getInIndexByID(vid, pred) != -1)
+			return true;
+	return false;
+}
+
 int PathQueryHandler::getEdgeNum()
 {
 	// if (m != -1)
@@ -1638,6 +1646,8 @@ vector<vector<int>> PathQueryHandler::kHopEnumeratePath(int uid, int vid, int re
 {
 	vector<vector<int>> ret;
 	vector<pair<int, int>> s;
+	if (!hasEdge(uid) || !hasEdge(vid))	// also keeps the IDs below within range
+		return ret;
 	vector<int> bar(getVertNum(), 0);
 	// Use reverse kBFS from destination to refine bar
 	queue<int> q;
@@ -2061,9 +2071,13 @@ void PathQueryHandler::PR(bool directed, const std::vector<int> &pred_set, int r
 std::vector<std::pair<int, double>> &idx2val)
 {
 	// initialize
-	int nodeNum = getVertNum();
-	if (retNum > nodeNum)
-		retNum = nodeNum;
+	int nodeNum = getVertNum(), vertNum = 0;	// size of the ID range, number of vertices
+	vector<char> isVert(nodeNum, 0);
+	for (int vid = 0; vid < nodeNum; ++vid)
+		if (hasEdge(vid))
+			isVert[vid] = 1, vertNum++;
+	if (retNum > vertNum)
+		retNum = vertNum;
 	vector<int> neiNum(nodeNum);
 	vector<double> oldPR(nodeNum), newPR(nodeNum);
 	for (int vid = 0; vid < nodeNum; ++vid)
@@ -2074,9 +2088,10 @@ std::vector<std::pair<int, double>> &idx2val)
 				continue;
 			neiNum[vid] += getInSize(vid, pred);
 		}
-	double offset = (1 - alpha) / nodeNum;
+	double offset = (1 - alpha) / vertNum;
 	for (int vid = 0; vid < nodeNum; ++vid)
-		oldPR[vid] = 1.0 / nodeNum, newPR[vid] = offset;
+		if (isVert[vid])
+			oldPR[vid] = 1.0 / vertNum, newPR[vid] = offset;
 	// iterate
 	bool stop = false;
 	int cnt = 0;
@@ -2086,12 +2101,15 @@ std::vector<std::pair<int, double>> &idx2val)
 		// update
 		for (int vid = 0; vid < nodeNum; ++vid)
 		{
+			if (!isVert[vid])
+				continue;
 			if (!neiNum[vid]) // dangling nodes
 			{
-				double add = alpha * oldPR[vid] / nodeNum;
+				double add = alpha * oldPR[vid] / vertNum;
 				for (int to = 0; to < nodeNum; ++to)
 				{
-					newPR[to] += add;
+					if (isVert[to])
+						newPR[to] += add;
 				}
 			}
 			else
@@ -2127,9 +2145,10 @@ std::vector<std::pair<int, double>> &idx2val)
 	}
 	idx2val.clear();
 	for (int i = 0; i < nodeNum; i++)
-		idx2val.emplace_back(i, oldPR[i]);
+		if (isVert[i])
+			idx2val.emplace_back(i, oldPR[i]);
 	// Extract top-k results
-	if (retNum != -1 && retNum < nodeNum) {
+	if (retNum != -1 && retNum < vertNum) {
 		sort(idx2val.begin(), idx2val.end(), [](pair<size_t, double> const &l, pair<size_t, double> const &r)
 			{ return l.second > r.second; });
 		idx2val.erase(idx2val.begin() + retNum, idx2val.end());
@@ -2408,7 +2427,9 @@ vector<vector<int>> PathQueryHandler::labelProp(bool directed, const std::vector
 			for (auto com : coms)
 				lbl2id[com] = idx++;
 			for (unsigned vid = 0; vid < nodeNum; vid++)
-				res[lbl2id[maxLabels[vid]]].push_back(vid);
+				if (g.hasEdge(vid))
+					res[lbl2id[maxLabels[vid]]].push_back(vid);
+			res.erase(remove_if(res.begin(), res.end(), [](const vector<int> &c) { return c.empty(); }), res.end());
 			return res;
 		}
 	};
@@ -2464,7 +2485,7 @@ vector<vector<int>> PathQueryHandler::WCC(const std::vector<int> &pred_set)
 	int vertex_num = getVertNum();
 	for (int vertexid = 0; vertexid < vertex_num; ++vertexid)
 	{
-		if (vid2wccid.count(vertexid) == 0)
+		if (vid2wccid.count(vertexid) == 0 && hasEdge(vertexid))
 		{
 			cout << "start vertexid: " << vertexid << endl;
 
@@ -6083,6 +6104,8 @@ int PathQueryHandler::kHopCount(int uid, bool directed, int k, const std::vector
  std::vector<int> PathQueryHandler::kHopNeighbor(int uid, bool directed, int k, const std::vector<int> &pred_set, int retNum) {
 	int s = uid;
 	std::vector<int> cnt;
+	if (!hasEdge(uid))	// also keeps the ID within range
+		return cnt;
 	std::vector<int> q[2];
 	int N = getVertNum();
 	std::vector<char> visited(N, 0);
@@ -6155,6 +6178,8 @@ int PathQueryHandler::kHopCount(int uid, bool directed, int k, const std::vector
 */
 int PathQueryHandler::shortestPathCount(int uid, int vid, bool directed, const std::vector<int> &pred_set)
 {
+	if (!hasEdge(uid) || !hasEdge(vid))	// also keeps the IDs below within range
+		return 0;
 	int N = getVertNum();
 	std::vector<int> q[2], tq[2];
 	std::vector<int> scnt(N, 0), tcnt(N, 0); // scnt[v]: s--v, number of all shortest paths
diff --git a/Query/PathQueryHandler.h b/Query/PathQueryHandler.h
index db11020..6aeb2a1 100644
--- a/Query/PathQueryHandler.h
+++ b/Query/PathQueryHandler.h
@@ -339,7 +339,8 @@ public:
 
 	// Labeled graph interface: edge (u, v, pred)
 
-	int getVertNum();	// Get total number of vertices
+	int getVertNum();	// Get the size of the vertex ID range; not every ID in it need be a vertex
+	bool hasEdge(int vid);	// Whether the ID is that of a vertex, i.e. has an edge
 	int getEdgeNum();	// Get total number of edges
     int getSetEdgeNum(const std::vector<int> &pred_set);    // TODO: Get the number of edges labeled by preds in pred_set
 	int getInIndexByID(int vid, int pred);	// Get vertice's index in csr[1] offset_list
-- 
2.43.0


From d19f996dcb13f53a9924f9b4a2408055585685e5 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 00:27:17 +0000
Subject: [PATCH 58/86] fix: graph functions of a database loaded with its CSR
 ignored later updates

---
 Database/Database.cpp | 5 ++++-
 Database/Database.h   | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 4b07e7d..050e369 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1725,7 +1725,7 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 	string dictionary_store_path = this->store_path + "/dictionary.dc";
 
 	this->stringindex->SetTrie(this->kvstore->getTrie());
-	GeneralEvaluation general_evaluation(this->kvstore, this->stringindex, this->query_cache, this->csr,
+	GeneralEvaluation general_evaluation(this->kvstore, this->stringindex, this->query_cache, this->csr_stale ? NULL : this->csr,
 										 this->pre2num, this->pre2sub, this->pre2obj, this->triples_num,
 										 this->limitID_predicate, this->limitID_literal, this->limitID_entity, txn, this->getfreelist_entity(), this->getentity_num());
 	if (txn != nullptr)
@@ -3229,6 +3229,7 @@ bool Database::sub2id_pre2id_obj2id_RDFintoSignature(const string _rdf_file, con
 
 bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *_vertices, vector<unsigned> *_predicates, shared_ptr<Transaction> txn)
 {
+	this->csr_stale = true;
 	// cout<<endl<<"the new triple is:"<<endl;
 	// cout<<_triple.subject<<endl;
 	// cout<<_triple.predicate<<endl;
@@ -3360,6 +3361,7 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 
 bool Database::removeTriple(const TripleWithObjType &_triple, vector<unsigned> *_vertices, vector<unsigned> *_predicates, shared_ptr<Transaction> txn)
 {
+	this->csr_stale = true;
 	TYPE_ENTITY_LITERAL_ID _sub_id = (this->kvstore)->getIDByEntity(_triple.subject);
 	TYPE_PREDICATE_ID _pre_id = (this->kvstore)->getIDByPredicate(_triple.predicate);
 	TYPE_ENTITY_LITERAL_ID _obj_id = INVALID_ENTITY_LITERAL_ID;
@@ -4207,6 +4209,7 @@ Database::batch_remove(const TripleWithObjType *_triples, TYPE_TRIPLE_NUM _tripl
 
 void Database::sub_batch_update(vector<ID_TUPLE> id_tuples, TYPE_TRIPLE_NUM _triple_num, unsigned &update_num, UPDATE_TYPE type, shared_ptr<Transaction> txn)
 {
+	this->csr_stale = true;
 	vector<unsigned> data;
 	if (type == UPDATE_TYPE::SUBJECT_INSERT || type == UPDATE_TYPE::SUBJECT_REMOVE)
 	{
diff --git a/Database/Database.h b/Database/Database.h
index bc6c3e7..a639773 100644
--- a/Database/Database.h
+++ b/Database/Database.h
@@ -34,6 +34,7 @@ public:
 	static const int STRING_MODE = 1;
 	static const int ID_MODE = 2;
 	CSR *csr;
+	std::atomic<bool> csr_stale{false};	// the data changed since csr was loaded
 	Database();
 	Database(std::string _name);
 	void release(FILE *fp0);
-- 
2.43.0


From 6e23f1406f9fc35e3663fd260f39c9f77f618c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:03 +0000
Subject: [PATCH 59/86] fix: kHopNeighbor of a variable names its result "dst",
 as documented and as for a constant

---
 Query/GeneralEvaluation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 5af3c19..b575d2f 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -3356,7 +3356,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 										notFirstOutput = 1;
 									ss << "{\"src\":\"" << kvstore->getStringByID(uid) 
 										<< "\",\"depth\":" << hopConstraint 
-										<< ", \"neighbor\":["; 
+										<< ", \"dst\":["; 
 									bool hasMore = false;
 									for (int nid : ret)
 									{
-- 
2.43.0


From dc64c01a6694e11014c2e8cd5026f7309b8f7340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 60/86] fix: a backup of a loaded database lacked the updates
 that were not saved yet

---
 Database/Database.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 050e369..203fbe4 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4374,13 +4374,17 @@ bool Database::backup()
 	{
 		Util::remove_path(backup_path);
 	}
+	// what is still in memory only must be in the copied files
+	pthread_rwlock_wrlock(&(this->update_lock));
+	if (this->if_loaded)
+	{
+		this->save();
+	}
 	sys_cmd = "cp -r " + this->store_path + ' ' + backup_path;
 	system(sys_cmd.c_str());
+	pthread_rwlock_unlock(&(this->update_lock));
 	Util::remove_path(backup_path + '/' + this->update_log);
 
-	// this->vstree->saveTree();
-	this->kvstore->flush();
-
 	this->clear_update_log();
 	string update_log_path = this->store_path + '/' + this->update_log_since_backup;
 	Util::remove_path(update_log_path);
-- 
2.43.0


From cf2661008e67596dbeb1ee1b3bda7bf87e29bfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:07 +0000
Subject: [PATCH 61/86] fix: restoring from a folder that is no backup of the
 database destroyed the database

---
 Main/gconsole.cpp |  7 ++++++-
 Main/ghttp.cpp    |  8 +++++++-
 Main/grestore.cpp |  7 ++++++-
 Main/grpc.cpp     |  8 +++++++-
 Util/Util.cpp     | 17 +++++++----------
 5 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/Main/gconsole.cpp b/Main/gconsole.cpp
index 1768013..73f866a 100644
--- a/Main/gconsole.cpp
+++ b/Main/gconsole.cpp
@@ -2238,6 +2238,12 @@ int restore_handler(const vector<string> &args)
 		cout << "Backup Path Error, Restore Failed" << endl;
 		return 0;
 	}
+	string folder_name = Util::get_folder_name(backup_path, db_name);
+	if (folder_name.empty())
+	{
+		cout << "Backup Path Does not Match DataBase Name, Restore Failed" << endl;
+		return 0;
+	}
 
 	string sparql = "ASK WHERE{<" + db_name + "> <database_status> \"already_built\".}";
 	ResultSet ask_rs;
@@ -2288,7 +2294,6 @@ int restore_handler(const vector<string> &args)
 		return -1;
 	}
 
-	string folder_name = Util::get_folder_name(backup_path, db_name);
 	// {
 	// 	size_t idx = backup_path.find_last_of('/');
 	// 	path = backup_path.substr(idx + 1);
diff --git a/Main/ghttp.cpp b/Main/ghttp.cpp
index 762591e..fdbd966 100644
--- a/Main/ghttp.cpp
+++ b/Main/ghttp.cpp
@@ -1966,6 +1966,13 @@ void restore_thread_new(const shared_ptr<HttpServer::Request> &request, const sh
 			sendResponseMsg(1003, error, operation, request, response);
 			return;
 		}
+		string folder_name = Util::get_folder_name(path, db_name);
+		if (folder_name.empty())
+		{
+			error = "Backup path does not match database name, restore failed";
+			sendResponseMsg(1003, error, operation, request, response);
+			return;
+		}
 		// check load status: need unload if already load
 		if (apiUtil->check_already_load(db_name))
 		{
@@ -2029,7 +2036,6 @@ void restore_thread_new(const shared_ptr<HttpServer::Request> &request, const sh
 			string db_path = _db_home + "/" + db_name + _db_suffix;
 			Util::remove_path(db_path);
 			// mv backup folder to database folder
-			string folder_name = Util::get_folder_name(path, db_name);
 			string sys_cmd = "mv " + _db_home + "/" + folder_name + " " + db_path;
 			std::system(sys_cmd.c_str());
 			apiUtil->unlock_databaseinfo(db_info);
diff --git a/Main/grestore.cpp b/Main/grestore.cpp
index 78c14e1..a07ef98 100644
--- a/Main/grestore.cpp
+++ b/Main/grestore.cpp
@@ -121,6 +121,12 @@ main(int argc, char * argv[])
 			cout << "the backup path error, restore failed." << endl;
 			return 0;
 		}
+		string folder_name = Util::get_folder_name(backup_path, db_name);
+		if (folder_name.empty())
+		{
+			cout << "Backup Path Does not Match DataBase Name, Restore Failed" << endl;
+			return 0;
+		}
 		//system.db
 		Database system_db("system");
 		system_db.load();
@@ -167,7 +173,6 @@ main(int argc, char * argv[])
 		db_path = _db_home + "/" + db_name + _db_suffix;
 		Util::remove_path(db_path);
 
-		string folder_name = Util::get_folder_name(backup_path, db_name);
 		string sys_cmd = "mv " + _db_home + "/" + folder_name + ' ' + db_path;
 		system(sys_cmd.c_str());
 
diff --git a/Main/grpc.cpp b/Main/grpc.cpp
index 50b3366..946419e 100644
--- a/Main/grpc.cpp
+++ b/Main/grpc.cpp
@@ -1904,6 +1904,13 @@ try
 			response->Error(StatusParamIsIllegal, error);
 			return;
 		}
+		std::string folder_name = Util::get_folder_name(path, db_name);
+		if (folder_name.empty())
+		{
+			error = "Backup path does not match database name, restore failed";
+			response->Error(StatusParamIsIllegal, error);
+			return;
+		}
 		// check load status: need unload if already load
 		if (apiUtil->check_already_load(db_name))
 		{
@@ -1966,7 +1973,6 @@ try
 			string db_path = _db_home + "/" + db_name + _db_suffix;
 			Util::remove_path(db_path);
 			// mv backup folder to database folder
-			string folder_name = Util::get_folder_name(path, db_name);
 			string sys_cmd = "mv " + _db_home + "/" + folder_name + " " + db_path;
 			std::system(sys_cmd.c_str());
 			apiUtil->unlock_databaseinfo(db_info);
diff --git a/Util/Util.cpp b/Util/Util.cpp
index 5d0c174..8ac911d 100644
--- a/Util/Util.cpp
+++ b/Util/Util.cpp
@@ -1180,12 +1180,9 @@ string
 Util::get_backup_time(const string path, const string db_name)
 {
     string _db_name = db_name + Util::getConfigureValue("db_suffix");
-    string::size_type position;
-    position = path.find(_db_name);
-
-    if(position == path.npos)
+    string db_folder = Util::get_folder_name(path, db_name);
+    if(db_folder.empty())
         return "";
-    string db_folder = path.substr(position, path.length());
     string timestamp = db_folder.substr(_db_name.length() + 1, db_folder.length());
     string year, month, day, hour, minute, second;
     year = "20" + timestamp.substr(0, 2);
@@ -1200,11 +1197,11 @@ Util::get_backup_time(const string path, const string db_name)
 
 string
 Util::get_folder_name(const string path, const string db_name){
-    string _db_name = db_name + ".db";
-    string::size_type position;
-    position = path.find(_db_name);
-
-    string db_folder = path.substr(position, path.length());
+    // the last component of the path, "" when it is no backup folder of this database
+    string prefix = db_name + Util::getConfigureValue("db_suffix") + "_";
+    string db_folder = path.substr(path.find_last_of('/') + 1);
+    if(db_folder.length() <= prefix.length() || db_folder.compare(0, prefix.length(), prefix) != 0)
+        return "";
     return db_folder;
 }
 
-- 
2.43.0


From 25ad3a6e369122cdb65cc96e8c07ef3992eea57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 62/86] fix: unpacking an archive wrote files outside of its
 directory

---
 Util/CompressFileUtil.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Util/CompressFileUtil.cpp b/Util/CompressFileUtil.cpp
index 66a3bc1..0588bd4 100644
--- a/Util/CompressFileUtil.cpp
+++ b/Util/CompressFileUtil.cpp
@@ -202,6 +202,10 @@ namespace CompressUtil
         if (err!=UNZ_OK)
             return false;
 
+        // an entry may not lead out of the directory
+        if (("/" + std::string(filename) + "/").find("/../") != std::string::npos)
+            return false;
+
         std::string file_path = getDirPath() + "/" + filename;
         std::cout<<"unCompress start:file_path"<<file_path<<"size:"<<file_info.uncompressed_size<<std::endl;
         if (FileHelper::isFileDir(filename))
-- 
2.43.0


From 39132c6fb51c1f1495bff401c074b3c032be701a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 63/86] fix: an archive without entries for its directories, as
 exported with a path, could not be unpacked

---
 Util/CompressFileUtil.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Util/CompressFileUtil.cpp b/Util/CompressFileUtil.cpp
index 0588bd4..a1fc9d9 100644
--- a/Util/CompressFileUtil.cpp
+++ b/Util/CompressFileUtil.cpp
@@ -208,6 +208,9 @@ namespace CompressUtil
 
         std::string file_path = getDirPath() + "/" + filename;
         std::cout<<"unCompress start:file_path"<<file_path<<"size:"<<file_info.uncompressed_size<<std::endl;
+        // not every archive (compressExportZip makes such ones) has entries for its directories
+        for (size_t pos = file_path.find('/', getDirPath().length() + 1); pos != std::string::npos; pos = file_path.find('/', pos + 1))
+            mkdir(file_path.substr(0, pos).c_str(), 0775);
         if (FileHelper::isFileDir(filename))
         {
             mkdir(file_path.c_str(), 0775);
-- 
2.43.0


From bbd7f1dc49eac7d225411c72b62682d6ba2ccd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 64/86] fix: modifying a value of an index array twice freed
 its blocks twice

---
 KVstore/IVArray/IVArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index cc80060..f0fdab4 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -468,6 +468,7 @@ IVArray::modify(unsigned _key, char *_str, unsigned long _len)
 		//cout << "free disk and set" << endl;
 		unsigned store = array[_key].getStore();
 		BM->FreeBlocks(store);
+		array[_key].setStore(0); // the blocks are free now, do not free them again later
 		AddInCache(_key, _str, _len);
 		
 	}
-- 
2.43.0


From d133a0e91df3439e10e9c5ff9e1604071d528a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 65/86] fix: modifying a string of an index array twice freed
 its blocks twice

---
 KVstore/ISArray/ISArray.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/KVstore/ISArray/ISArray.cpp b/KVstore/ISArray/ISArray.cpp
index a58d1aa..839f4dc 100644
--- a/KVstore/ISArray/ISArray.cpp
+++ b/KVstore/ISArray/ISArray.cpp
@@ -443,6 +443,7 @@ ISArray::modify(unsigned _key, char *_str, unsigned _len)
 
 	unsigned store = array[_key].getStore();
 	BM->FreeBlocks(store);
+	array[_key].setStore(0); // the blocks are free now, do not free them again later
 	AddInCache(_key, _str, _len);
 
 	this->AccessLock.unlock();
-- 
2.43.0


From ad12b702d8f2567c128431a20b9a75c9814ba6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 66/86] fix: an index array did not grow when its first key
 past the end was a power of two

---
 KVstore/ISArray/ISArray.cpp | 4 ++--
 KVstore/IVArray/IVArray.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/KVstore/ISArray/ISArray.cpp b/KVstore/ISArray/ISArray.cpp
index 839f4dc..24f5532 100644
--- a/KVstore/ISArray/ISArray.cpp
+++ b/KVstore/ISArray/ISArray.cpp
@@ -344,8 +344,8 @@ ISArray::insert(unsigned _key, char *_str, unsigned _len)
 	{
 		// Alloc = true;
 		CurEntryNumChange = true;
-		// temp is the smallest number >= _key and mod SET_KEY_INC = 0
-		unsigned temp = ((_key + (1 << 10) - 1) >> 10) << 10;
+		// temp is the smallest number > _key and mod SET_KEY_INC = 0
+		unsigned temp = ((_key >> 10) + 1) << 10;
 		unsigned OldEntryNum = CurEntryNum;
 		CurEntryNum = max(OldEntryNum << 1, temp);
 		CurEntryNum = ISMIN(CurEntryNum, static_cast<unsigned>(ISMAXKEYNUM));
diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index f0fdab4..dbb9018 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -354,7 +354,7 @@ IVArray::insert(unsigned _key, char *_str, unsigned long _len)
 		unsigned OldEntryNum = CurEntryNum;
 //		CurEntryNum = max(CurEntryNum + IVArray::SET_KEY_INC, temp);
 		CurEntryNum = IVMIN(OldEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
-		while (_key > CurEntryNum)
+		while (_key >= CurEntryNum)
 		{
 			CurEntryNum = IVMIN(CurEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
 		}
@@ -698,7 +698,7 @@ IVArray::TryExclusiveLatch(unsigned _key, shared_ptr<Transaction> txn, bool has_
 			//assuming one expand is enough
 			unsigned OldEntryNum = CurEntryNum;
 			CurEntryNum = IVMIN(OldEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
-			while (_key > CurEntryNum)
+			while (_key >= CurEntryNum)
 			{
 				CurEntryNum = IVMIN(CurEntryNum << 1, static_cast<unsigned>(IVMAXKEYNUM));
 			}
-- 
2.43.0


From 871edc93313697df368d592103bdd95b037b11e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:45 +0000
Subject: [PATCH 67/86] fix: removing or modifying a key past the end of an
 index array read outside of it

---
 KVstore/IVArray/IVArray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index dbb9018..ecb2de9 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -402,7 +402,7 @@ IVArray::insert(unsigned _key, char *_str, unsigned long _len)
 bool
 IVArray::remove(unsigned _key)
 {
-	if (!array[_key].isUsed())
+	if (_key >= CurEntryNum || !array[_key].isUsed())
 	{
 		return false;
 	}
@@ -441,7 +441,7 @@ bool
 IVArray::modify(unsigned _key, char *_str, unsigned long _len)
 {
 	//cout << "this IVArray::modify " << endl;
-	if (!array[_key].isUsed())
+	if (_key >= CurEntryNum || !array[_key].isUsed())
 	{
 		
 		return false;
-- 
2.43.0


From 8168404a919134e0373a534cf698a0ae75b44c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:22 +0000
Subject: [PATCH 68/86] fix: a transaction that began during a commit saw a
 part of it

---
 Database/Txn_manager.cpp | 6 +++++-
 Database/Txn_manager.h   | 1 +
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/Database/Txn_manager.cpp b/Database/Txn_manager.cpp
index 410adb1..6593d94 100644
--- a/Database/Txn_manager.cpp
+++ b/Database/Txn_manager.cpp
@@ -145,7 +145,9 @@ inline txn_id_t Txn_manager::ArrangeCommitID()
 txn_id_t Txn_manager::Begin(IsolationLevelType isolationlevel)
 {
 	checkpoint_lock.lockShared();
+	commit_lock.lockShared();
 	txn_id_t TID = this->ArrangeTID();
+	commit_lock.unlock();
 	if(TID == INVALID_ID)
 	{
 		cout << "TID wrapped, please run garbage clean!" << endl;
@@ -175,11 +177,13 @@ int Txn_manager::Commit(txn_id_t TID)
 		// checkpoint_lock.unlock();
 		return 1;
 	}
+	commit_lock.lockExclusive();
 	txn_id_t CID = this->ArrangeCommitID();
 	txn->SetCommitID(CID);
 	if(db != nullptr)
 		db->TransactionCommit(txn);
-	else
+	commit_lock.unlock();
+	if(db == nullptr)
 	{
 		cout << "error! database has been flushed or removed" << endl;
 		// checkpoint_lock.unlock();
diff --git a/Database/Txn_manager.h b/Database/Txn_manager.h
index 4c18fb0..7211134 100644
--- a/Database/Txn_manager.h
+++ b/Database/Txn_manager.h
@@ -37,6 +37,7 @@ private:
 	mutex log_lock;
 	Latch checkpoint_lock;
 	Latch table_lock;
+	Latch commit_lock;	// a transaction begins before or after a commit as a whole
 	mutex DirtyKeys_lock;
 	
 	vector<IDSet> DirtyKeys;
-- 
2.43.0


From 39eb035c478b16ad43f8968ad8be26399ae707f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:44 +0000
Subject: [PATCH 69/86] fix: two transactions that used the same new term at
 the same time could give it two ids

---
 Database/Database.cpp | 2 ++
 Database/Database.h   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 203fbe4..522ba89 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -3237,6 +3237,7 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 
 	// long tv_kv_store_begin = Util::get_cur_time();
 
+	unique_lock<mutex> term_lck(this->newTerm_lock);
 	TYPE_ENTITY_LITERAL_ID _sub_id = (this->kvstore)->getIDByEntity(_triple.subject);
 	// if(txn != nullptr)
 	// 	cout << "Update in Transaction...................................................." << endl;
@@ -3308,6 +3309,7 @@ bool Database::insertTriple(const TripleWithObjType &_triple, vector<unsigned> *
 				_vertices->push_back(_obj_id);
 		}
 	}
+	term_lck.unlock();
 
 	if (txn != nullptr && (this->kvstore)->GetExclusiveLock(_sub_id, _pre_id, _obj_id, txn) == false)
 	{
diff --git a/Database/Database.h b/Database/Database.h
index a639773..e92b717 100644
--- a/Database/Database.h
+++ b/Database/Database.h
@@ -147,6 +147,8 @@ private:
 	mutex allocLiteralID_lock;
 	// for allocPredicateID
 	mutex allocPredicateID_lock;
+	// looking a term up and giving it an id when it has none is one step
+	mutex newTerm_lock;
 	// for log file
 	mutex log_lock;
 	//for umap
-- 
2.43.0


From e066a39203b5b53fc94b2c36ab333081f12b3735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:39 +0000
Subject: [PATCH 70/86] fix: a value was copied out of the cache of an index
 file after its lock was released

---
 KVstore/ISArray/ISArray.cpp | 3 ++-
 KVstore/IVArray/IVArray.cpp | 4 ++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/KVstore/ISArray/ISArray.cpp b/KVstore/ISArray/ISArray.cpp
index 24f5532..bde0523 100644
--- a/KVstore/ISArray/ISArray.cpp
+++ b/KVstore/ISArray/ISArray.cpp
@@ -296,8 +296,9 @@ ISArray::search(unsigned _key, char *&_str, unsigned &_len)
 	if (array[_key].inCache())
 	{
 		UpdateTime(_key);
+		bool ret = array[_key].getBstr(_str, _len);
 		this->AccessLock.unlock();
-		return array[_key].getBstr(_str, _len);
+		return ret;
 	}
 //	printf(" need to read disk ");
 	// read in disk
diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index ecb2de9..5c32d89 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -298,8 +298,8 @@ IVArray::search(unsigned _key, char *&_str, unsigned long & _len)
 	if (array[_key].inCache())
 	{
 		UpdateTime(_key);
-		this->CacheLock.unlock();
 		bool ret = array[_key].getBstr(_str, _len);
+		this->CacheLock.unlock();
 		return ret;
 	}
 	// read in disk
@@ -591,8 +591,8 @@ IVArray::search(unsigned _key, char *& _str, unsigned long & _len, VDataSet& Add
 	if (array[_key].inCache())
 	{
 		UpdateTime(_key);
-		this->CacheLock.unlock();
 		bool ret = array[_key].getBstr(_str, _len);
+		this->CacheLock.unlock();
 		//cout << ret << endl;
 		//_str maybe nullptr
 		//cout << "get base str success......................................................" << endl;
-- 
2.43.0


From c25b4ead3f6215044731054cfd371837807e6e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:39 +0000
Subject: [PATCH 71/86] fix: a query outside of transactions read an index
 array while a transaction replaced it

---
 KVstore/IVArray/IVArray.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/KVstore/IVArray/IVArray.cpp b/KVstore/IVArray/IVArray.cpp
index 5c32d89..b0ef103 100644
--- a/KVstore/IVArray/IVArray.cpp
+++ b/KVstore/IVArray/IVArray.cpp
@@ -286,11 +286,13 @@ IVArray::UpdateTime(unsigned _key, bool HasLock)
 bool
 IVArray::search(unsigned _key, char *&_str, unsigned long & _len)
 {
+	ArraySharedLock(); // a transaction may replace the array by a longer one
 	//printf("%s search %d: ", filename.c_str(), _key);
 	if (_key >= CurEntryNum ||!array[_key].isUsed())
 	{
 		_str = NULL;
 		_len = 0;
+		ArrayUnlock();
 		return false;
 	}
 	// try to read in main memory
@@ -300,6 +302,7 @@ IVArray::search(unsigned _key, char *&_str, unsigned long & _len)
 		UpdateTime(_key);
 		bool ret = array[_key].getBstr(_str, _len);
 		this->CacheLock.unlock();
+		ArrayUnlock();
 		return ret;
 	}
 	// read in disk
@@ -307,6 +310,7 @@ IVArray::search(unsigned _key, char *&_str, unsigned long & _len)
 	if (!BM->ReadValue(store, _str, _len))
 	{
 		this->CacheLock.unlock();
+		ArrayUnlock();
 		return false;
 	}
 	if(!VList::isLongList(_len))
@@ -324,6 +328,7 @@ IVArray::search(unsigned _key, char *&_str, unsigned long & _len)
 //		}
 	}
 	this->CacheLock.unlock();
+	ArrayUnlock();
 	return true;
 }
 
-- 
2.43.0


From 58fe3f38afc1cfa978522c88696223a201888c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:06 +0000
Subject: [PATCH 72/86] fix: a query outside of transactions saw a checkpoint
 half done

---
 Database/Database.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 522ba89..42a8d42 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -4726,6 +4726,8 @@ bool Database::getFinalResult(SPARQLquery &_sparql_q, ResultSet &_result_set)
 // garbage clean
 void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids, vector<unsigned> &obj_literal_ids, vector<unsigned> &pre_ids)
 {
+	// queries outside of transactions read the indexes that are changed here
+	pthread_rwlock_wrlock(&(this->update_lock));
 	// vector<unsigned> sub_ids , obj_ids, obj_literal_ids, pre_ids;
 	for (auto &_pre_id : pre_ids)
 		this->triples_num -= this->kvstore->getPredicateDegree(_pre_id);
@@ -4832,6 +4834,7 @@ void Database::VersionClean(vector<unsigned> &sub_ids, vector<unsigned> &obj_ids
 	// update string index
 	this->stringindex->disable(vertices, true);
 	this->stringindex->disable(predicates, false);
+	pthread_rwlock_unlock(&(this->update_lock));
 }
 
 void Database::TransactionRollback(shared_ptr<Transaction> txn)
-- 
2.43.0


From 2ff08d8ce79cfb21b2d0bd16b991ce47ce4ce6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:32 +0000
Subject: [PATCH 73/86] fix: ppr from a vertex that does not exist used memory
 outside of its arrays

---
 Query/PathQueryHandler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Query/PathQueryHandler.cpp b/Query/PathQueryHandler.cpp
index 1cc6fb2..cfc1271 100644
--- a/Query/PathQueryHandler.cpp
+++ b/Query/PathQueryHandler.cpp
@@ -5498,6 +5498,8 @@ vector<int> PathQueryHandler::coreTruss(const std::vector<int> &pred_set, int al
 void PathQueryHandler::SSPPR(int uid, int retNum, int k, const vector<int> &pred_set, vector<pair<int, double>> &topkV2ppr)
 {
 	topkV2ppr.clear();
+	if (uid < 0 || uid >= (int)getVertNum() || retNum <= 0)
+		return;	// no such vertex, or nothing wanted
 	srand(time(NULL));
 
 	unordered_map<int, double> v2ppr;
-- 
2.43.0


From 10adfb942c51d4494810a427fb9385dd5e13125a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:53 +0000
Subject: [PATCH 74/86] fix: an exception in a query or update left the update
 lock held

---
 Database/Database.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/Database/Database.cpp b/Database/Database.cpp
index 42a8d42..32c2fd2 100644
--- a/Database/Database.cpp
+++ b/Database/Database.cpp
@@ -1720,6 +1720,19 @@ void Database::export_db(FILE *fp)
 	}
 }
 
+// releases the update lock also when the query or update throws
+struct UpdateLockHolder
+{
+	pthread_rwlock_t *lock;
+	explicit UpdateLockHolder(pthread_rwlock_t *_lock) : lock(_lock) {}
+	UpdateLockHolder(const UpdateLockHolder &) = delete;
+	~UpdateLockHolder()
+	{
+		if (lock != nullptr)
+			pthread_rwlock_unlock(lock);
+	}
+};
+
 int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool update_flag, bool export_flag, shared_ptr<Transaction> txn)
 {
 	string dictionary_store_path = this->store_path + "/dictionary.dc";
@@ -1772,6 +1785,7 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 		{
 			return -101;
 		}
+		UpdateLockHolder held(txn == nullptr ? &(this->update_lock) : nullptr);
 		if (txn == nullptr)
 			cout << "read priviledge of update lock acquired" << endl;
 
@@ -1811,8 +1825,6 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 		// general_evaluation.setNeedOutputAnswer();
 
 		// tmpsi.clear();
-		if (txn == nullptr)
-			pthread_rwlock_unlock(&(this->update_lock));
 	}
 	// Update
 	else
@@ -1834,6 +1846,7 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 			cout << "unable to write lock" << endl;
 			return -101;
 		}
+		UpdateLockHolder held(txn == nullptr ? &(this->update_lock) : nullptr);
 		if (txn == nullptr)
 			cout << "write priviledge of update lock acquired" << endl;
 
@@ -1878,7 +1891,6 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 				{
 					if (txn == nullptr)
 					{
-						pthread_rwlock_unlock(&(this->update_lock));
 						throw "Database::query failed";
 					}
 				}
@@ -1927,8 +1939,6 @@ int Database::query(const string _query, ResultSet &_result_set, FILE *_fp, bool
 			this->query_cache->clear();
 			cout << "QueryCache cleared" << endl;
 		}
-		if (txn == nullptr)
-			pthread_rwlock_unlock(&(this->update_lock));
 	}
 
 	long tv_final = Util::get_cur_time();
-- 
2.43.0


From a61ee86579474243eabd5043d2cc12adca7278d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:53 +0000
Subject: [PATCH 75/86] fix: a variable that is never bound shifted the columns
 of an ordered result

---
 Query/GeneralEvaluation.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index b575d2f..0696d5e 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -3618,6 +3618,12 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 							ret_result.writeToStream(ans_str);
 						}
 					}
+					else
+					{
+						// A variable that is never bound still has its (empty) column
+						string ans_str;
+						ret_result.writeToStream(ans_str);
+					}
 				}
 
 			ret_result.resetStream();
-- 
2.43.0


From a00031d99355b5609d6e8bba51cf1c0ee3bf8ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:53 +0000
Subject: [PATCH 76/86] fix: a sorted result kept on disk could only be read
 once

---
 Util/Stream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Util/Stream.cpp b/Util/Stream.cpp
index aa90196..d1c6454 100644
--- a/Util/Stream.cpp
+++ b/Util/Stream.cpp
@@ -486,11 +486,13 @@ Stream::mergeSort()
 void
 Stream::setEnd()
 {
-    if(this->mode == 1)
+    //already sorted and in read mode (2: read to the end): only start again from the first record
+    if(this->mode == 1 || this->mode == 2)
     {
 #ifdef DEBUG_STREAM
         fprintf(stderr, "Stream::setEnd(): already in read mode!\n");
 #endif
+        this->mode = 1;
         this->xpos = 0;
         //FILE* fp = (FILE*)(this->ans);
 		if(!this->inMem)
-- 
2.43.0


From 9588c799f6bde489597390e88719de51a8afa215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:53 +0000
Subject: [PATCH 77/86] verif hook: the memory limit of sorted runs can be set
 by the harness (GSTORE_VERIF)

---
 Util/Stream.cpp | 4 ++++
 Util/Stream.h   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/Util/Stream.cpp b/Util/Stream.cpp
index d1c6454..27c29e7 100644
--- a/Util/Stream.cpp
+++ b/Util/Stream.cpp
@@ -10,6 +10,10 @@
 
 using namespace std;
 
+#ifdef GSTORE_VERIF
+unsigned Stream::BASE_MEMORY_LIMIT = 1 << 30;
+#endif
+
 //DEBUG: error when using STL::sort() to sort the Bstr[] units with mycmp, null pointer(Bstr*) 
 //reported sometimes(for example, watdiv_30.db and watdiv_200.db, query/C3.sql). 
 //Notice that sort() uses quick-sorting method when size is large, which usually 
diff --git a/Util/Stream.h b/Util/Stream.h
index de92562..8eca869 100644
--- a/Util/Stream.h
+++ b/Util/Stream.h
@@ -122,7 +122,11 @@ private:
 public:
 	//NOTICE:max num of opened files is 1024 in Linux by default, but this is enough for a result
 	//as large as 1T
+#ifdef GSTORE_VERIF
+	static unsigned BASE_MEMORY_LIMIT;	//set by the harness, to merge small runs
+#else
 	static const unsigned BASE_MEMORY_LIMIT = 1 << 30;
+#endif
 
 	Stream();
 	Stream(std::vector<TYPE_ENTITY_LITERAL_ID>& _keys, std::vector<bool>& _desc, unsigned _rownum, unsigned _colnum, bool _flag);
-- 
2.43.0


From 7ec2667aa5c3a90ff812302aaf4ec6bbab11ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 78/86] fix: the privileges of an unknown user were looked up
 past the end of the user table

---
 GRPC/APIUtil.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index e656e10..eeacf49 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1746,6 +1746,11 @@ bool APIUtil::check_privilege(const std::string& username, const std::string& ty
 	pthread_rwlock_rdlock(&users_map_lock);
 	std::map<std::string, struct DBUserInfo *>::iterator it = users.find(username);
 	int check_result = 0;
+	if (it == users.end())
+	{
+		pthread_rwlock_unlock(&users_map_lock);
+		return 0;
+	}
 	if(type == "query" || type == "monitor")
 	{
 		pthread_rwlock_rdlock(&(it->second->query_priv_set_lock));
-- 
2.43.0


From 01a886d4124b68b6409ae2046f1b6923c6ab010b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 79/86] fix: an update of the system database that does not
 parse left the system database and the users locked

---
 GRPC/APIUtil.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index eeacf49..2b88102 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -1374,7 +1374,17 @@ bool APIUtil::update_sys_db(string query)
     ResultSet _rs;
     FILE* ofp = stdout;
     string msg;
-	int ret = system_database->query(query, _rs, ofp);
+    int ret = -1;
+    try
+    {
+        ret = system_database->query(query, _rs, ofp);
+    }
+    catch (const std::exception &e)
+    {
+        SLOG_ERROR("update sparql: " + query + " error: " + string(e.what()));
+        pthread_rwlock_unlock(&system_db_lock);
+        return false;
+    }
     if (ret <= -100)  //select query
     {
         if(ret == -100)
-- 
2.43.0


From 5bd66662e9952dda14655fa4b5b1e7ae6c73d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 80/86] fix: a password with a quote or a backslash could write
 other records of the system database or was lost at the next start

---
 GRPC/APIUtil.cpp | 47 +++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 41 insertions(+), 6 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 2b88102..6d1fd96 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -8,7 +8,36 @@
  */
 #include "APIUtil.h"
 
+// the text of a literal inside the quotes of a SPARQL update
+static string escape_literal(const string& text)
+{
+    string result;
+    for (size_t i = 0; i < text.size(); i++)
+    {
+        switch (text[i])
+        {
+        case '"': result += "\\\""; break;
+        case '\\': result += "\\\\"; break;
+        case '\n': result += "\\n"; break;
+        case '\r': result += "\\r"; break;
+        default: result += text[i];
+        }
+    }
+    return result;
+}
 
+// whether <text> is one IRI in a SPARQL update
+static bool is_iri_text(const string& text)
+{
+    for (size_t i = 0; i < text.size(); i++)
+    {
+        if ((unsigned char)text[i] <= ' ' || strchr("<>\"{}|^`\\", text[i]) != NULL)
+        {
+            return false;
+        }
+    }
+    return !text.empty();
+}
 
 APIUtil::APIUtil()
 {
@@ -277,7 +306,11 @@ int APIUtil::initialize(const std::string server_type, const std::string port, c
             for (unsigned int i = 0; i < rs.ansNum; i++)
             {
                 string username = util.clear_angle_brackets(rs.answer[i][0]);
-                string password = util.replace_all(rs.answer[i][1], "\"", "");
+                string password = rs.answer[i][1];
+                if (password.size() >= 2 && password[0] == '"' && password[password.size() - 1] == '"')
+                {
+                    password = password.substr(1, password.size() - 2);
+                }
                 struct DBUserInfo *user = new DBUserInfo(username, password);
                 
                 //privilege add
@@ -1500,12 +1533,14 @@ bool APIUtil::user_add(const string& username, const string& password)
         #if defined(DEBUG)
         SLOG_DEBUG("user ready to add.");
         #endif
-        struct DBUserInfo *temp_user = new DBUserInfo(username, password);
-        users.insert(pair<std::string, struct DBUserInfo *>(username, temp_user));
-        string update = "INSERT DATA {<" + username + "> <has_password> \"" + password + "\".}";
-        result = update_sys_db(update);
+        string update = "INSERT DATA {<" + username + "> <has_password> \"" + escape_literal(password) + "\".}";
+        result = is_iri_text(username) && update_sys_db(update);
         if (result)
+        {
+            struct DBUserInfo *temp_user = new DBUserInfo(username, password);
+            users.insert(pair<std::string, struct DBUserInfo *>(username, temp_user));
             refresh_sys_db();
+        }
     }
     pthread_rwlock_unlock(&users_map_lock);
     return result;
@@ -1555,7 +1590,7 @@ bool APIUtil::user_pwd_alert(const string& username, const string& password)
         result = update_sys_db(update);
         if (result)
         {
-            update = "INSERT DATA {<" + username + "> <has_password>  \"" + password + "\".}";
+            update = "INSERT DATA {<" + username + "> <has_password>  \"" + escape_literal(password) + "\".}";
             result = update_sys_db(update) || result;
             refresh_sys_db();
         }
-- 
2.43.0


From 40ff642f639b6da9ccec502346af65cec63e172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 81/86] fix: pages of logs: an empty log stayed locked, and a
 line over 1023 bytes hid the lines after it

---
 GRPC/APIUtil.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/GRPC/APIUtil.cpp b/GRPC/APIUtil.cpp
index 6d1fd96..80e9a1e 100644
--- a/GRPC/APIUtil.cpp
+++ b/GRPC/APIUtil.cpp
@@ -2104,6 +2104,7 @@ void APIUtil::get_access_log(const string &date, int &page_no, int &page_size, s
         in.close();
         if (totalSize == 0)
         {
+            pthread_rwlock_unlock(&access_log_lock);
             dbAccessLogs->setTotalSize(totalSize);
             dbAccessLogs->setTotalPage(totalPage);
             return;
@@ -2123,11 +2124,10 @@ void APIUtil::get_access_log(const string &date, int &page_no, int &page_size, s
         // seek to start line;
         in.open(accessLog.c_str(), ios::in);
         int i_temp;
-        char buf_temp[1024];
         in.seekg(0,ios::beg);
         for (i_temp = 1;i_temp<startLine;i_temp++)
         {
-            in.getline(buf_temp, sizeof(buf_temp));
+            getline(in, line, '\n');
         }
         //APIUtil::Seek_to_line(in, startLine);
         vector<std::string> lines;
@@ -2245,6 +2245,7 @@ void APIUtil::get_query_log(const string &date, int &page_no, int &page_size, st
         in.close();
         if (totalSize == 0)
         {
+            pthread_rwlock_unlock(&query_log_lock);
             dbQueryLogs->setTotalSize(totalSize);
             dbQueryLogs->setTotalPage(totalPage);
             return;
@@ -2264,11 +2265,10 @@ void APIUtil::get_query_log(const string &date, int &page_no, int &page_size, st
         // seek to start line;
         in.open(queryLog.c_str(), ios::in);
         int i_temp;
-        char buf_temp[1024];
         in.seekg(0, ios::beg);
         for (i_temp = 1; i_temp < startLine; i_temp++)
         {
-            in.getline(buf_temp, sizeof(buf_temp));
+            getline(in, line, '\n');
         }
         //APIUtil::Seek_to_line(in, startLine);
         vector<std::string> lines;
@@ -2438,6 +2438,7 @@ void APIUtil::get_transactionlog(int &page_no, int &page_size, struct Transactio
         in.close();
         if (totalSize == 0)
         {
+            pthread_rwlock_unlock(&transactionlog_lock);
             dbQueryLogs->setTotalSize(totalSize);
             dbQueryLogs->setTotalPage(totalPage);
             return;
@@ -2457,11 +2458,10 @@ void APIUtil::get_transactionlog(int &page_no, int &page_size, struct Transactio
         // seek to start line;
         in.open(TRANSACTION_LOG_PATH, ios::in);
         int i_temp;
-        char buf_temp[1024];
         in.seekg(0, ios::beg);
         for (i_temp = 1; i_temp < startLine; i_temp++)
         {
-            in.getline(buf_temp, sizeof(buf_temp));
+            getline(in, line, '\n');
         }
         vector<std::string> lines;
         while (startLine < endLine && getline(in, line, '\n')) {
-- 
2.43.0


From da25a0ad7566e997de951e37994fe4bb0f6e93da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 82/86] fix: a range of addresses was compared number by number
 instead of as a range

---
 Util/IPBlackList.cpp | 16 +++++++---------
 Util/IPWhiteList.cpp | 17 +++++++----------
 2 files changed, 14 insertions(+), 19 deletions(-)

diff --git a/Util/IPBlackList.cpp b/Util/IPBlackList.cpp
index ff7dd4b..39148d3 100644
--- a/Util/IPBlackList.cpp
+++ b/Util/IPBlackList.cpp
@@ -69,17 +69,15 @@ bool IPBlackList::Check(std::string ip){
             Util::split( fields[0], ".", start );
             Util::split( fields[1], ".", end );
             Util::split( ip, ".", test_ip );
-            bool res = false;
+            if (start.size() != 4 || end.size() != 4 || test_ip.size() != 4)
+                continue;
+            std::vector<int> s, e, candidate;
             for(int i = 0; i < 4; i++){
-                int s = std::stoi(start[i]);
-                int e = std::stoi(end[i]);
-                int candidate = std::stoi(test_ip[i]);
-                if(!(s <= candidate && candidate <= e)){
-                    res = true;
-                    break;
-                }
+                s.push_back(std::stoi(start[i]));
+                e.push_back(std::stoi(end[i]));
+                candidate.push_back(std::stoi(test_ip[i]));
             }
-            if(!res)
+            if(s <= candidate && candidate <= e)
                 return false;
         }
     }
diff --git a/Util/IPWhiteList.cpp b/Util/IPWhiteList.cpp
index 5cb4c72..1371fee 100644
--- a/Util/IPWhiteList.cpp
+++ b/Util/IPWhiteList.cpp
@@ -66,18 +66,15 @@ bool IPWhiteList::Check(std::string ip){
             Util::split( fields[0], ".", start );
             Util::split( fields[1], ".", end );
             Util::split( ip, ".", test_ip );
-            bool res = true;
+            if (start.size() != 4 || end.size() != 4 || test_ip.size() != 4)
+                continue;
+            std::vector<int> s, e, candidate;
             for(int i = 0; i < 4; i++){
-                int s = std::stoi(start[i]);
-                int e = std::stoi(end[i]);
-                int candidate = std::stoi(test_ip[i]);
-
-                if(!(s <= candidate && candidate <= e)){
-                    res = false;
-                    break;
-                }
+                s.push_back(std::stoi(start[i]));
+                e.push_back(std::stoi(end[i]));
+                candidate.push_back(std::stoi(test_ip[i]));
             }
-            if(res)
+            if(s <= candidate && candidate <= e)
                 return true;
         }
     }
-- 
2.43.0


From 85f40504fc93699b83cb6cff56d2528977f2fa76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:33 +0000
Subject: [PATCH 83/86] fix: update templates inserted triples with unbound
 terms or with a literal as subject or predicate

---
 Query/GeneralEvaluation.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index 0696d5e..a481ced 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -3750,6 +3750,16 @@ void GeneralEvaluation::prepareUpdateTriple(GroupPattern &update_pattern, Triple
 								object = this->temp_result->results[j].result[k].str[object_id - id_cols];
 						}
 
+						// no triple where a variable is unbound (or its BIND failed) or a literal would be subject or predicate
+						bool valid = subject[0] != '"' && predicate[0] != '"';
+						int cols[3] = {subject_id, predicate_id, object_id};
+						for (int col : cols)
+							if (col != -1)
+								valid = valid && (col < id_cols ? this->temp_result->results[j].result[k].id[col] != INVALID :
+									!this->temp_result->results[j].result[k].str[col - id_cols].empty());
+						if (!valid)
+							continue;
+
 						if (object[0] == '<')
 							object_type = TripleWithObjType::Entity;
 						else
@@ -3760,6 +3770,7 @@ void GeneralEvaluation::prepareUpdateTriple(GroupPattern &update_pattern, Triple
 				}
 			}
 		}
+	update_triple_num = update_triple_count;
 	if (string_index_buffer != NULL) delete[] string_index_buffer;
 }
 
-- 
2.43.0


From 36145781e48c9f7bd39c9266fa8d4d84ddc16635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:33 +0000
Subject: [PATCH 84/86] fix: MIN over dateTimes was always empty

---
 Query/GeneralEvaluation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index a481ced..b2e7df6 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -2331,7 +2331,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 										else if (datetime)
 										{
 											res = datetime_min > tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+											if (datetime_min.term_value.empty() || res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
 												datetime_min = tmp;
 										}
 									}
@@ -2346,7 +2346,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 										else if (datetime)
 										{
 											res = datetime_max < tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+											if (datetime_max.term_value.empty() || res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
 												datetime_max = tmp;
 										}
 									}
@@ -2465,7 +2465,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 										else if (datetime)
 										{
 											res = datetime_min > tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+											if (datetime_min.term_value.empty() || res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
 												datetime_min = tmp;
 										}
 									}
@@ -2480,7 +2480,7 @@ void GeneralEvaluation::getFinalResult(ResultSet &ret_result)
 										else if (datetime)
 										{
 											res = datetime_max < tmp;
-											if (res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
+											if (datetime_max.term_value.empty() || res.bool_value.value == EvalMultitypeValue::EffectiveBooleanValue::true_value)
 												datetime_max = tmp;
 										}
 									}
-- 
2.43.0


From 56e3996e95725d69fb90ce38ce21a643cad8c37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:33 +0000
Subject: [PATCH 85/86] fix: a BIND or FILTER in a branch of a UNION was
 evaluated with the patterns around the UNION

---
 Query/QueryTree.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/Query/QueryTree.cpp b/Query/QueryTree.cpp
index eef1232..9f682fd 100644
--- a/Query/QueryTree.cpp
+++ b/Query/QueryTree.cpp
@@ -294,6 +294,7 @@ pair<Varset, Varset> GroupPattern::checkNoMinusAndOptionalVarAndSafeFilter(Varse
 	if (!check_condition)	return make_pair(Varset(), Varset());
 
 	Varset new_ban_varset;
+	Varset own_varset;	// what this group binds itself: a FILTER does not see what is around its group
 
 	for (int i = 0; i < (int)this->sub_group_pattern.size(); i++)
 		if (!check_condition)	break;
@@ -305,6 +306,7 @@ pair<Varset, Varset> GroupPattern::checkNoMinusAndOptionalVarAndSafeFilter(Varse
 				check_condition = false;
 
 			occur_varset += this->sub_group_pattern[i].pattern.varset;
+			own_varset += this->sub_group_pattern[i].pattern.varset;
 		}
 		else if (this->sub_group_pattern[i].type == SubGroupPattern::Union_type)
 		{
@@ -312,6 +314,11 @@ pair<Varset, Varset> GroupPattern::checkNoMinusAndOptionalVarAndSafeFilter(Varse
 
 			for (int j = 0; j < (int)this->sub_group_pattern[i].unions.size(); j++)
 			{
+				// A BIND of a branch is not evaluated on the patterns around the UNION
+				for (auto &sub : this->sub_group_pattern[i].unions[j].sub_group_pattern)
+					if (sub.type == SubGroupPattern::Bind_type)
+						check_condition = false;
+
 				pair<Varset, Varset> sub_return_varset =
 					this->sub_group_pattern[i].unions[j].checkNoMinusAndOptionalVarAndSafeFilter(occur_varset, ban_varset, check_condition);
 
@@ -325,6 +332,7 @@ pair<Varset, Varset> GroupPattern::checkNoMinusAndOptionalVarAndSafeFilter(Varse
 
 			new_ban_varset += sub_ban_varset;
 			occur_varset += sub_occur_varset;
+			own_varset += sub_occur_varset;
 			ban_varset += new_ban_varset;
 		}
 		else if (this->sub_group_pattern[i].type == SubGroupPattern::Optional_type)
@@ -339,6 +347,7 @@ pair<Varset, Varset> GroupPattern::checkNoMinusAndOptionalVarAndSafeFilter(Varse
 			new_ban_varset += sub_return_varset.second;
 			new_ban_varset += this->sub_group_pattern[i].optional.group_pattern_resultset_maximal_varset - occur_varset;
 			occur_varset += sub_return_varset.first;
+			own_varset += sub_return_varset.first;
 			ban_varset += new_ban_varset;
 		}
 		else if (this->sub_group_pattern[i].type == SubGroupPattern::Minus_type)
@@ -347,7 +356,7 @@ pair<Varset, Varset> GroupPattern::checkNoMinusAndOptionalVarAndSafeFilter(Varse
 		}
 		else if (this->sub_group_pattern[i].type == SubGroupPattern::Filter_type)
 		{
-			if (!this->sub_group_pattern[i].filter.varset.belongTo(occur_varset))
+			if (!this->sub_group_pattern[i].filter.varset.belongTo(own_varset))
 				check_condition = false;
 		}
 		else if (this->sub_group_pattern[i].type == SubGroupPattern::Bind_type)
@@ -356,6 +365,7 @@ pair<Varset, Varset> GroupPattern::checkNoMinusAndOptionalVarAndSafeFilter(Varse
 				check_condition = false;
 
 			occur_varset += this->sub_group_pattern[i].bind.varset;
+			own_varset += this->sub_group_pattern[i].bind.varset;
 		}
 		else if (this->sub_group_pattern[i].type == SubGroupPattern::Subquery_type)
 		{
-- 
2.43.0


From 5e7f0727f761a998a339c91d86cb7661d5d07ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:33 +0000
Subject: [PATCH 86/86] fix: a variable with computed values in some results
 was not compared with its stored values in joins, OPTIONAL and MINUS

---
 Query/GeneralEvaluation.cpp |  7 ++++++-
 Query/TempResult.cpp        | 12 ++++++++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/Query/GeneralEvaluation.cpp b/Query/GeneralEvaluation.cpp
index b2e7df6..a5ac37a 100644
--- a/Query/GeneralEvaluation.cpp
+++ b/Query/GeneralEvaluation.cpp
@@ -1185,7 +1185,12 @@ TempResultSet* GeneralEvaluation::queryEvaluation(int dep)
 				if (group_pattern.sub_group_pattern[i].type == GroupPattern::SubGroupPattern::Optional_type)
 					result->doOptional(*temp, *new_result, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
 				else if (group_pattern.sub_group_pattern[i].type == GroupPattern::SubGroupPattern::Minus_type)
-					result->doMinus(*temp, *new_result, this->stringindex, this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset);
+				{
+					// The variables of a MINUS group are not part of the query's own varset
+					Varset subject_object_varset = this->query_tree.getGroupPattern().group_pattern_subject_object_maximal_varset \
+						+ group_pattern.sub_group_pattern[i].optional.group_pattern_subject_object_maximal_varset;
+					result->doMinus(*temp, *new_result, this->stringindex, subject_object_varset);
+				}
 
 				temp->release();
 				result->release();
diff --git a/Query/TempResult.cpp b/Query/TempResult.cpp
index 4b4dcf5..70fbeb0 100644
--- a/Query/TempResult.cpp
+++ b/Query/TempResult.cpp
@@ -1294,6 +1294,10 @@ void TempResultSet::doJoin(TempResultSet &x, TempResultSet &r, StringIndex *stri
 	for (int i = 0; i < (int)x.results.size(); i++)
 		x_str_varset += x.results[i].str_varset;
 
+	// A variable that is a string in any result, on either side, must be one in all of them to be comparable
+	x_str_varset += this_str_varset;
+	this_str_varset = x_str_varset;
+
 	for (int i = 0; i < (int)this->results.size(); i++)
 		if (this->results[i].id_varset.hasCommonVar(x_str_varset))
 			this->results[i].convertId2Str(this->results[i].id_varset * x_str_varset, stringindex, entity_literal_varset);
@@ -1367,6 +1371,10 @@ void TempResultSet::doOptional(TempResultSet &x, TempResultSet &r, StringIndex *
 		x_str_varset += x.results[i].str_varset;
 
 	// Align this and x's str varset
+	// A variable that is a string in any result, on either side, must be one in all of them to be comparable
+	x_str_varset += this_str_varset;
+	this_str_varset = x_str_varset;
+
 	for (int i = 0; i < (int)this->results.size(); i++)
 		if (this->results[i].id_varset.hasCommonVar(x_str_varset))
 			this->results[i].convertId2Str(this->results[i].id_varset * x_str_varset, stringindex, entity_literal_varset);
@@ -1415,6 +1423,10 @@ void TempResultSet::doMinus(TempResultSet &x, TempResultSet &r, StringIndex *str
 	for (int i = 0; i < (int)x.results.size(); i++)
 		x_str_varset += x.results[i].str_varset;
 
+	// A variable that is a string in any result, on either side, must be one in all of them to be comparable
+	x_str_varset += this_str_varset;
+	this_str_varset = x_str_varset;
+
 	for (int i = 0; i < (int)this->results.size(); i++)
 		if (this->results[i].id_varset.hasCommonVar(x_str_varset))
 			this->results[i].convertId2Str(this->results[i].id_varset * x_str_varset, stringindex, entity_literal_varset);
-- 
2.43.0

