From 2c53d7b081cc71a8a56782dd5f07c7580e965721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 01/42] fix: initialise the root pointer and node count of both
 simplex trees

---
 Complex/indSimplexTree.cpp | 2 ++
 Complex/simplexTree.cpp    | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index 6312fdf..90dcfad 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -9,6 +9,8 @@
 
 indSimplexTree::indSimplexTree(double _maxEpsilon, std::vector<std::vector<double>> _distMatrix, int _maxDim){
 	indexCounter = 0;
+	nodeCount = 0;
+	head = nullptr;
 	distMatrix = _distMatrix;
 	maxDim = _maxDim;
 	maxEpsilon = _maxEpsilon;
diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 67650d2..f1d8790 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -7,6 +7,8 @@
 
 simplexTree::simplexTree(double _maxEpsilon, std::vector<std::vector<double>> _distMatrix, int _maxDim){
 	indexCounter = 0;
+	nodeCount = 0;
+	head = nullptr;
 	distMatrix = _distMatrix;
 	maxDimension = _maxDim;
 	maxEpsilon = _maxEpsilon;
-- 
2.43.0


From aaa21520e4ec522698498776fc35bb6d58807347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:14 +0000
Subject: [PATCH 02/42] fix: indexed tree counts its vertices and grows the
 per-dimension counters

---
 Complex/indSimplexTree.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index 90dcfad..a2f9561 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -194,6 +194,8 @@ void indSimplexTree::recurseInsert(indTreeNode* node, unsigned curIndex, int dep
 		std::set<unsigned> newSimp = simp;
 		newSimp.insert(node->index);
 		insNode->simplexSet = newSimp;
+		if(dimCounts.size() <= depth + 1)
+			dimCounts.resize(depth + 2, 0);
 		dimCounts[depth+1]++;
 		
 		//Get the largest weight of this simplex
@@ -567,7 +569,9 @@ bool indSimplexTree::deletion(indTreeNode* removalEntry) {
 
 int indSimplexTree::vertexCount(){
 	//Return the number of vertices in the tree
-	return nodeCount;
+	if(dimensions.size() == 0)
+		return 0;
+	return dimensions[0].size();
 }
 
 int indSimplexTree::simplexCount(){
-- 
2.43.0


From df043dd3ca7350120bcb526974fca2c92025c0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:26 +0000
Subject: [PATCH 03/42] fix: a cleared or grown simplex tree is listed and
 counted like a fresh one

---
 Complex/indSimplexTree.cpp |  1 +
 Complex/simplexTree.cpp    | 10 +++++++---
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index a2f9561..2f376f6 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -362,6 +362,7 @@ void indSimplexTree::insert(std::vector<double>&) {
 	curNode->index = indexCounter;
 	
 	std::set<unsigned> tempSet = {curNode->index};
+	isSorted = false;
 	
 	//Check if this is the first node (i.e. head)
 	//	If so, initialize the head node
diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index f1d8790..0a0ad7c 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -284,6 +284,7 @@ void simplexTree::insert(std::vector<double>&) {
 	curNode->index = indexCounter;
 	std::set<unsigned> tempSet = {curNode->index};
 	runningVectorIndices.push_back(runningVectorCount);
+	isSorted = false;
 
 	//Check if this is the first node (i.e. head)
 	//	If so, initialize the head node
@@ -566,8 +567,11 @@ std::vector<std::pair<double, std::vector<unsigned>>> simplexTree::getd0Pairs(){
 void simplexTree::clear(){
 
 	//Clear the simplexTree structure
-	deletion(head);
+	if(head != nullptr)
+		deletion(head);
 	head = nullptr;
+	nodeCount = 0;
+	isSorted = false;
 
 	//Clear the weighed edge graph
 	for(auto z : weightEdgeGraph){
@@ -577,9 +581,9 @@ void simplexTree::clear(){
 	dimensions.clear();
 
 
-	//runningVectorCount = 0;
+	runningVectorCount = 0;
 	runningVectorIndices.clear();
-	//indexCounter = 0;
+	indexCounter = 0;
 
 }
 
-- 
2.43.0


From 1a9954863d7f7b0df94bc975de07cbdba65ed4fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 04/42] fix: fast persistence handles a complex without edges

---
 Pipes/fastPersistence.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 3e5b9fd..6bf4d3d 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -77,6 +77,10 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 	std::list<unsigned> pivots;										//Store identified pivots
 	unsigned pivotIndex = 0;
 		
+	//A complex of isolated vertices has no edges
+	if(edges.size() == 1)
+		edges.push_back({});
+		
 	//For each edge set 
 	for(auto edge : edges[1]){		
 		bool foundPivot = false;
-- 
2.43.0


From 635cec66afff114eef43765fc572e46ecc4afd4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 05/42] fix: fast persistence records every dimension 0
 interval in the table

---
 Pipes/fastPersistence.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 6bf4d3d..d061123 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -130,6 +130,8 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 			conSetTemp.push_back(edge.first);
 			pivots.push_back(pivotIndex);
 			mst.push_back(edge.second);
+			bettiBoundaryTableEntry des = { 0, 0, edge.second, edge.first };
+			inData.bettiTable.push_back(des);
 			
 		}
 		
-- 
2.43.0


From 84c77c2d4d79d7542498e4d9fab4c6e4cffcf420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 06/42] fix: fast persistence reports one open interval per
 connected component

---
 Pipes/fastPersistence.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index d061123..be09734 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -149,9 +149,12 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 		bettis += "0,0," + std::to_string(z) + "\n";
 		
 	}
-	bettis += "0,0," + std::to_string(maxEpsilon) + "\n";
-	bettiBoundaryTableEntry des = { 0, 0, maxEpsilon, {} };
-	inData.bettiTable.push_back(des);
+	//Every connected component that remains has an interval open up to epsilon
+	for(unsigned c = mst.size(); c < edges[0].size(); c++){
+		bettis += "0,0," + std::to_string(maxEpsilon) + "\n";
+		bettiBoundaryTableEntry des = { 0, 0, maxEpsilon, {} };
+		inData.bettiTable.push_back(des);
+	}
 	
 	
 	
-- 
2.43.0


From 0565b892b76dfcad33e5c18d12c7141d217368ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:06 +0000
Subject: [PATCH 07/42] fix: fast persistence does not read past the last pivot

---
 Pipes/fastPersistence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index be09734..dd2f674 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -207,7 +207,7 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 					//		-The row is a pivot of the column, closing an interval
 					//		-The row is not a pivot, needing to be XOR with the stored pivot
 					//		-The row does not intersect (0 or cleared from previous dimension)
-					if(*pivotPointer != pivotIndex){
+					if(pivotPointer == pivots.end() || *pivotPointer != pivotIndex){
 						
 						//Check for intersection
 						bool isCoface = std::includes(column_to_reduce.first.begin(), column_to_reduce.first.end(), row_to_check.first.begin(), row_to_check.first.end());
-- 
2.43.0


From e3a370fef47c58c0ba60e2fdab71d0567bdc4397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 08/42] fix: fast persistence pairs a column with its youngest
 face

---
 Pipes/fastPersistence.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index dd2f674..9cb3d42 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -225,7 +225,9 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 				//Reduce the column or store into the unordered map
 								
 				std::set<unsigned int>::iterator pIndex;
-				while((pIndex = cofaceList.begin()) != cofaceList.end()){
+				while(!cofaceList.empty()){
+					//The pivot is the youngest remaining face
+					pIndex = std::prev(cofaceList.end());
 					if(v.find(*pIndex) == v.end()){
 						v[*pIndex] = cofaceList;
 						nextPivots.push_back(columnIndex);		
-- 
2.43.0


From f0606ad53c61f42826bddaf0dca9a966d60285c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 09/42] fix: persistence pairs each negative simplex by
 reducing its boundary

---
 Pipes/persistencePairs.cpp | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index fe33d53..5d27be8 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -212,6 +212,7 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 		}
 	}
 	
+	std::map<unsigned, std::set<unsigned>> pairedChains;
 	unsigned curPivot = -1;
 	if(!kPivots.empty()){
 		curPivot = *(kPivots.begin());
@@ -236,23 +237,27 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 			tArray[curIndex].marked = true;
 			
 		} else {
-			int iter = tArray.size();
-			for(; iter >= 0; iter--){
-				if(tArray[iter].marked && tArray[iter].death < 0 && tArray[curIndex].simplex.size() != kSimplices[iter].size() && ut.setIntersect(kSimplices[iter], tArray[curIndex].simplex, false).size() == tArray[curIndex].simplex.size() - 1)
-					break;
+			//RemovePivotRows: start from the marked faces and eliminate those already paired
+			std::set<unsigned> chain;
+			for(int iter = 0; iter < curIndex; iter++){
+				if(tArray[iter].marked && kSimplices[iter].size() + 1 == curDim && std::includes(kSimplices[curIndex].begin(), kSimplices[curIndex].end(), kSimplices[iter].begin(), kSimplices[iter].end()))
+					chain.insert(iter);
 			}
-			if(iter != 0){
-				if(tArray[iter].death < 0 ){
-					tArray[iter].death = kWeights[curIndex];
-					
-					if(tArray[iter].death != tArray[iter].birth)
-						bettis += std::to_string(tArray[curIndex].simplex.size() - 2) + "," + std::to_string(tArray[iter].birth) + "," + std::to_string(kWeights[curIndex]) + "\n";
-				}
+			while(!chain.empty() && pairedChains.find(*chain.rbegin()) != pairedChains.end())
+				chain = ut.setXOR(pairedChains[*chain.rbegin()], chain);
+			
+			if(!chain.empty()){
+				unsigned iter = *chain.rbegin();
+				pairedChains[iter] = chain;
+				tArray[iter].death = kWeights[curIndex];
+				
+				if(tArray[iter].death != tArray[iter].birth)
+					bettis += std::to_string(tArray[curIndex].simplex.size() - 2) + "," + std::to_string(tArray[iter].birth) + "," + std::to_string(kWeights[curIndex]) + "\n";
 			}
 			
 			if(!kPivots.empty()){
 				kPivots.erase(kPivots.begin());
-				curPivot = *(kPivots.begin());
+				curPivot = kPivots.empty() ? -1 : *(kPivots.begin());
 			}
 		}
 	}
-- 
2.43.0


From 1db5c46dafc26c1664f5b4a852469877ba5d3f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:54 +0000
Subject: [PATCH 10/42] fix: persistence reports open classes in their own
 dimension

---
 Pipes/persistencePairs.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index 5d27be8..41dc420 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -264,9 +264,9 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 	
 	
 	for(int t = 0; t < kSimplices.size(); t++){
-		if(tArray[t].marked && tArray[t].death == -1 && tArray[t].simplex.size() < dim){
-			ret[tArray[t].simplex.size()].push_back(std::make_pair(kWeights[t], maxEpsilon));
-			bettis += std::to_string(0) + "," + std::to_string(tArray[t].birth) + "," + std::to_string(maxEpsilon) + "\n";
+		if(tArray[t].marked && tArray[t].death == -1 && tArray[t].simplex.size() <= dim){
+			ret[tArray[t].simplex.size() - 1].push_back(std::make_pair(kWeights[t], maxEpsilon));
+			bettis += std::to_string(tArray[t].simplex.size() - 1) + "," + std::to_string(tArray[t].birth) + "," + std::to_string(maxEpsilon) + "\n";
 		}
 	}
 	
-- 
2.43.0


From 441814d0b76af2ce7ade74ee700ce5d7ab7e179f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:44 +0000
Subject: [PATCH 11/42] fix: persistence starts every run from an empty pairing
 table

---
 Pipes/persistencePairs.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Pipes/persistencePairs.cpp b/Pipes/persistencePairs.cpp
index 41dc420..5bbe0c6 100644
--- a/Pipes/persistencePairs.cpp
+++ b/Pipes/persistencePairs.cpp
@@ -197,6 +197,8 @@ pipePacket persistencePairs::runPipe(pipePacket inData){
 	//			Generate persistence interval for these, (weight of T[j], inf)
 	//		Success!
 	
+	tArray.clear();
+	
 	//Generate our boundary matrix and retrieve pivots
 	std::set<unsigned> kPivots = createBoundaryMatrix(edges);
 	
-- 
2.43.0


From 76ca1273c1fd2a0e7e1445b508d1833dae45fb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:51 +0000
Subject: [PATCH 12/42] fix: collapsing keeps a face that another remaining
 simplex shares

---
 Complex/simplexArrayList.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Complex/simplexArrayList.cpp b/Complex/simplexArrayList.cpp
index d941925..b220619 100644
--- a/Complex/simplexArrayList.cpp
+++ b/Complex/simplexArrayList.cpp
@@ -364,6 +364,14 @@ std::pair<std::vector<std::vector<unsigned>>, std::vector<std::vector<unsigned>>
 		
 	}	
 	
+	//The simplex and its max face collapse only if no other remaining simplex has that face
+	for(auto simp : weightedGraph[simplex.first.size() - 1]){
+		if(canRemove && simp != simplex && ut.symmetricDiff(simp.first, maxFace, true).size() == 1
+			&& std::find(removals.begin(), removals.end(), simp.first) == removals.end()){
+			canRemove = false;
+		}
+	}
+	
 	if(canRemove){
 		removals.push_back(simplex.first);
 		removals.push_back(maxFace);
-- 
2.43.0


From 6e7d765341c70c188bbf3ef034d9c09ade14dd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 13/42] fix: the union of two equal sets is that set

---
 Utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 6ad28f2..7b1323c 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -379,7 +379,7 @@ std::vector<unsigned> utils::setUnion(std::vector<unsigned> v1, std::vector<unsi
 	std::vector<unsigned> retTemp;
 	
 	if(v1 == v2)
-		return ret;
+		return v1;
 	
 	if(!isSorted){
 		sort(v1.begin(), v1.end());
-- 
2.43.0


From 9405492df45e1ad4ba8346e1bca9f8c6cc0a953e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 14/42] fix: one-character lines and lines ending in CR LF are
 read as data

---
 Utils/readInput.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index fb7285c..049e432 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -19,7 +19,7 @@
 
 // readInput constructor, currently no needed information for the class constructor
 readInput::readInput(){
-
+	pFile = NULL;
 }
 
 // readCSV -> read in a csv formatted file from file input
@@ -62,10 +62,10 @@ bool readInput::parseDoubleVector(std::string line, std::vector<double> &row){
 	std::size_t pos = std::string::npos;
 	
 	// Replace whitespace in the current line
-	line = std::regex_replace(line, std::regex(" "), "");
+	line = std::regex_replace(line, std::regex("\\s"), "");
 		
 	// Check if the line has a length (is not a blank line)
-	if(line.size() > 1){
+	if(line.size() > 0){
 			
 		// Iterate through each comma of the csv
 		while((pos = line.find_first_of(",")) != std::string::npos){
-- 
2.43.0


From 572a7bb7e60e2e8c0124a6eefc0cca28333b4485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 15/42] fix: the stream reader skips blank lines and reads
 lines longer than its buffer

---
 Utils/readInput.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index 049e432..48c20c8 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -161,14 +161,20 @@ bool readInput::streamRead(std::vector<double> &row){
 	if(pFile == NULL)
 		return false;
 	
-	//Check for EOF
-	if(fgets(streamBuffer, 1000, pFile) == NULL)
-		return false;
+	//Collect the buffers up to the end of the line; skip blank lines until EOF
+	std::string line;
+	while(fgets(streamBuffer, 1000, pFile) != NULL){
+		line += streamBuffer;
+		
+		if(line.back() == '\n'){
+			//Parse our row
+			if(parseDoubleVector(line, row))
+				return true;
+			line.clear();
+		}
+	}
 	
-	//Parse our row
-	if(parseDoubleVector(streamBuffer, row))	
-		return true;
-	else
-		return false;
+	//The last line may have no line ending
+	return parseDoubleVector(line, row);
 }
 
-- 
2.43.0


From 3bfb7e86af96eee45cde96f3b442ea9e8b3c2b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 16/42] fix: a truncated mat file does not repeat its last
 value

---
 Utils/readInput.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Utils/readInput.cpp b/Utils/readInput.cpp
index 48c20c8..e305954 100644
--- a/Utils/readInput.cpp
+++ b/Utils/readInput.cpp
@@ -126,7 +126,8 @@ std::vector<std::vector<double>> readInput::readMAT(std::string filename){
 		std::vector<double> tmp;	//Temporary (current) vector
 		
 		for(int dim = 0; dim < dimensions; dim++){
-			getline(file, line);		//Read the next line from file
+			if(!getline(file, line))	//Read the next line from file
+				line.clear();
 			
 			// Replace whitespace in the current line
 			line = std::regex_replace(line, std::regex(" "), "");
-- 
2.43.0


From 5ca67dfc94d2c99606786d33a9b102834cdc3892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 17/42] fix: an empty data set can be written as mat file

---
 Utils/writeOutput.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/writeOutput.cpp b/Utils/writeOutput.cpp
index 25165ea..c688985 100644
--- a/Utils/writeOutput.cpp
+++ b/Utils/writeOutput.cpp
@@ -97,7 +97,7 @@ bool writeOutput::writeCSV(std::string data, std::string filename, std::string h
 bool writeOutput::writeMAT(std::vector<std::vector<double>> data, std::string filename){
 	std::ofstream file(filename + ".mat");
 	
-	file << std::to_string(data.size()) << "\n" << std::to_string(data[0].size()) << "\n";
+	file << std::to_string(data.size()) << "\n" << std::to_string(data.empty() ? 0 : data[0].size()) << "\n";
 	for(auto row : data){
 		
 		for(auto column : row){
-- 
2.43.0


From d712d4e209148bcd091a2bb485bb7b18a0f85b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:26 +0000
Subject: [PATCH 18/42] fix: a trailing option without a value is reported
 instead of crashing

---
 Utils/argParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Utils/argParser.cpp b/Utils/argParser.cpp
index 0163ba3..c626959 100644
--- a/Utils/argParser.cpp
+++ b/Utils/argParser.cpp
@@ -81,7 +81,10 @@ std::map<std::string, std::string> argParser::parse(int argc, char** argv){
 	std::map<std::string,std::string> retVal;
 	//Remove and map the initial arguments (may be led with -- or -)
 	for(int i = 1; i < argc; i=i+2){
-		if (std::string(argv[i]).substr(0,2) == "--"){
+		if (i + 1 >= argc){
+			std::cout << "Missing value for argument: " << argv[i] << std::endl << std::endl;
+			printUsage();
+		} else if (std::string(argv[i]).substr(0,2) == "--"){
 			retVal[std::string(argv[i]).substr(2)] = argv[i+1];
 		} else if (std::string(argv[i]).substr(0,1) == "-"){
 			retVal[std::string(argv[i]).substr(1)] = argv[i+1];
-- 
2.43.0


From efcbf470e7c3b8e4f9dc0d8a87563f12a47e1e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 19/42] fix: the kd-tree finds neighbours exactly at the search
 radius

---
 Preprocessing/kdTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/kdTree.cpp b/Preprocessing/kdTree.cpp
index 46184f8..b021bd4 100644
--- a/Preprocessing/kdTree.cpp
+++ b/Preprocessing/kdTree.cpp
@@ -268,7 +268,7 @@ pointIndexArr kdTree::neighborhood(const kdNodePtr &branch, const point &pt, con
 
     nbh_s = neighborhood(section, pt, rad, (level +1) % dim);
     nbh.insert(nbh.end(), nbh_s.begin(), nbh_s.end()); //Add points in neighborhood from that branch
-    if(abs(dx) < rad){ //Points in other branch may also be contained in neighborhood
+    if(std::abs(dx) <= rad){ //Points in other branch may also be contained in neighborhood
         nbh_o = neighborhood(other, pt, rad, (level+1)% dim);
         nbh.insert(nbh.end(), nbh_o.begin(), nbh_o.end());
     }
-- 
2.43.0


From c822ae2a6ccd9e3b722e8cc195ddad98d6dcc953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 20/42] fix: denStream does not read past a data set smaller
 than its initial window

---
 Preprocessing/denStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index 05a3bd1..1bf3716 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -91,7 +91,7 @@ denStream::denStream(){
 // runPipe -> Run the configured functions of this pipeline segment
 pipePacket denStream::runPreprocessor(pipePacket inData){
   /////////constants//////////
-  initPoints = 1000; // points to generate p clusters (large data sets, use 1000) 
+  initPoints = std::min<int>(1000, inData.originalData.size()); // points to generate p clusters (large data sets, use 1000) 
   minPoints = 20; //For DBSCAN 
   mu = 10;   //weight of data points in cluster threshold
   beta = 0.2; // outlier threshold
-- 
2.43.0


From bc128bad660803595d2714b8c2f425d93f3bb3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 21/42] fix: denStream starts without a phantom cluster when
 all initial points are noise

---
 Preprocessing/denStream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index 1bf3716..13736cc 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -110,7 +110,7 @@ pipePacket denStream::runPreprocessor(pipePacket inData){
   timestamp = initPoints/streamSpeed;
   numPerTime = initPoints % streamSpeed;
 
-  if(pClusters == -1) pClusters = 1;
+  if(pClusters == -1) pClusters = 0;
   pMicroClusters = std::vector<microCluster>(pClusters, microCluster(timestamp, inData.originalData[0].size(), lambda));
 
   //Take labels of each point and insert into appropriate microCluster
-- 
2.43.0


From bcc72b558a39ee3e121c5cdbc9a25eaf9769b021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 22/42] fix: the radius of a micro-cluster of coincident points
 is 0, not NaN

---
 Preprocessing/denStream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index 13736cc..f8484b2 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -64,7 +64,7 @@ double microCluster::getRadius(){
     r2 += avgSquares[i] - center[i]*center[i]; //(CF2/w)-(CF1/w)^2
   }
 
-  return sqrt(r2);
+  return sqrt(std::max(r2, 0.0));
 }
 
 double microCluster::mergeRadius(std::vector<double> point, int timestamp){ //Radius if new point would be merged in
@@ -77,7 +77,7 @@ double microCluster::mergeRadius(std::vector<double> point, int timestamp){ //Ra
     r2 += newAvgSquare - newCenter*newCenter; //Use updated center and average sum of squares
   }
 
-  return sqrt(r2);
+  return sqrt(std::max(r2, 0.0));
 }
 
 // basePipe constructor
-- 
2.43.0


From a3d29d6932ae4fce14da77d6d3ed4c86ae3f13d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:52 +0000
Subject: [PATCH 23/42] fix: denStream does not carry outlier micro-clusters
 over from an earlier run

---
 Preprocessing/denStream.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Preprocessing/denStream.cpp b/Preprocessing/denStream.cpp
index f8484b2..dd58f73 100644
--- a/Preprocessing/denStream.cpp
+++ b/Preprocessing/denStream.cpp
@@ -112,6 +112,7 @@ pipePacket denStream::runPreprocessor(pipePacket inData){
 
   if(pClusters == -1) pClusters = 0;
   pMicroClusters = std::vector<microCluster>(pClusters, microCluster(timestamp, inData.originalData[0].size(), lambda));
+  oMicroClusters.clear();
 
   //Take labels of each point and insert into appropriate microCluster
   for(int i = 0; i<initPoints; i++){
-- 
2.43.0


From 70ff74f2995e2eb37b91fc679860a82ed851e054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 24/42] fix: k-means++ labels and averages the last point as
 well

---
 Preprocessing/kMeansPlusPlus.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index 1239a0b..e9cb999 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -112,7 +112,7 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
 		std::vector<unsigned> curLabels;
 		
 		//For each point, classify it to a centroid
-		for (unsigned j = 0; j < inData.originalData.size() - 1; j++){
+		for (unsigned j = 0; j < inData.originalData.size(); j++){
 			double minDist = std::numeric_limits<double>::max();
 			unsigned clusterIndex = 0;
 			
-- 
2.43.0


From 9d04a699350056e8188020677a2276aa475472b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 25/42] fix: k-means++ copes with fewer distinct points than
 clusters

---
 Preprocessing/kMeansPlusPlus.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index e9cb999..6dc6813 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -81,7 +81,7 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
     }       
     
     int i = 0;
-    while(tempCentroids.size() < num_clusters){
+    while(tempCentroids.size() < num_clusters && i < inData.originalData.size()){
 		if(std::find(tempCentroids.begin(), tempCentroids.end(), inData.originalData[i]) == tempCentroids.end()){
 			tempCentroids.push_back(inData.originalData[i]);
 		}
@@ -106,9 +106,9 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
     //Iterate until we reach max iderations or no change in the classification
 	for (int z = 0; z < num_iterations; z++){
 		
-		std::vector<double> summedClusters(num_clusters, 0); 
-		std::vector<std::vector<double>> summedCentroidVectors(num_clusters, std::vector<double>(inData.originalData[0].size(), 0));
-		std::vector<double> counts(num_clusters, 0);
+		std::vector<double> summedClusters(tempCentroids.size(), 0); 
+		std::vector<std::vector<double>> summedCentroidVectors(tempCentroids.size(), std::vector<double>(inData.originalData[0].size(), 0));
+		std::vector<double> counts(tempCentroids.size(), 0);
 		std::vector<unsigned> curLabels;
 		
 		//For each point, classify it to a centroid
-- 
2.43.0


From 82d193e4e03a5c1b63e0d5faee6804537a861786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:56 +0000
Subject: [PATCH 26/42] fix: k-means++ keeps the centroid of an empty cluster
 instead of NaN

---
 Preprocessing/kMeansPlusPlus.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Preprocessing/kMeansPlusPlus.cpp b/Preprocessing/kMeansPlusPlus.cpp
index 6dc6813..f85b5d4 100644
--- a/Preprocessing/kMeansPlusPlus.cpp
+++ b/Preprocessing/kMeansPlusPlus.cpp
@@ -139,6 +139,11 @@ pipePacket kMeansPlusPlus::runPreprocessor(pipePacket inData){
 		//Otherwise, 
 		//		Shift the centroid geometric centers to new centroids
 		for(int i = 0; i < summedCentroidVectors.size(); i++){
+			//An empty cluster keeps its centroid
+			if(counts[i] == 0){
+				summedCentroidVectors[i] = tempCentroids[i];
+				continue;
+			}
 			for(int d =0; d < summedCentroidVectors[0].size(); d++){
 				summedCentroidVectors[i][d] = summedCentroidVectors[i][d] / counts[i];
 			}
-- 
2.43.0


From 01b1cbcbbd2fb32fd848c93df2ff609e2a152963 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 27/42] fix: fast persistence stores the points of a boundary,
 not indices of its faces

---
 Pipes/fastPersistence.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Pipes/fastPersistence.cpp b/Pipes/fastPersistence.cpp
index 9cb3d42..1a4a3d1 100644
--- a/Pipes/fastPersistence.cpp
+++ b/Pipes/fastPersistence.cpp
@@ -235,7 +235,11 @@ pipePacket fastPersistence::runPipe(pipePacket inData){
 						if(edges[d][*pIndex].second != edges[d+1][columnIndex].second){
 								bettis += std::to_string(d) + "," + std::to_string(edges[d][*pIndex].second) +"," + std::to_string(edges[d+1][columnIndex].second) + "\n";
 								
-							bettiBoundaryTableEntry des = { d, edges[d][*pIndex].second, edges[d+1][columnIndex].second, cofaceList };
+							//The boundary points are the vertices of the remaining faces
+							std::set<unsigned> boundaryPoints;
+							for(auto face : cofaceList)
+								boundaryPoints.insert(edges[d][face].first.begin(), edges[d][face].first.end());
+							bettiBoundaryTableEntry des = { d, edges[d][*pIndex].second, edges[d+1][columnIndex].second, boundaryPoints };
 							inData.bettiTable.push_back(des);
 						}
 											
-- 
2.43.0


From e9fbb23d0cff511de1c1462f623e284b7a7d557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 28/42] fix: mapping a partition back changes the table it is
 given

---
 Utils/utils.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Utils/utils.cpp b/Utils/utils.cpp
index 7b1323c..38227a6 100644
--- a/Utils/utils.cpp
+++ b/Utils/utils.cpp
@@ -86,7 +86,7 @@ void utils::mapPartitionIndexing(std::vector<unsigned> partitionedLabels, std::v
 	
 	//std::cout << "Part Labels: " << partitionedLabels.size() << std::endl;
 	
-	for(auto bet : bettiTable){
+	for(auto& bet : bettiTable){
 		std::set<unsigned> convBound;
 		
 		for(auto ind : bet.boundaryPoints){
-- 
2.43.0


From 097bd5ec4e7942e0fff80dcb0bc84cace31ef29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 29/42] fix: reduced mode maps the intervals of each partition
 once, with its own labels

---
 LHFmain/main.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/LHFmain/main.cpp b/LHFmain/main.cpp
index 3989770..4d989a1 100644
--- a/LHFmain/main.cpp
+++ b/LHFmain/main.cpp
@@ -117,7 +117,7 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 		if(partitionedData.second[z].size() > 0){
 			std::cout << "Running Pipeline with : " << partitionedData.second[z].size() << " vectors" << std::endl;
 			wD->originalData = partitionedData.second[z];
-			
+			wD->bettiTable.clear();
 			
 			runPipeline(args, wD);
 			
@@ -137,15 +137,19 @@ void processReducedWrapper(std::map<std::string, std::string> args, pipePacket*
 	if(centroids.size() > 0){
 		std::cout << "Running Pipeline with : " << centroids.size() << " vectors" << std::endl;
 		wD->originalData = centroids;
+		wD->bettiTable.clear();
 		runPipeline(args, wD);
 		
 		wD->complex->clear();
+		
+		for(auto betEntry : wD->bettiTable)
+			mergedBettiTable.push_back(betEntry);
 	} else 
 		std::cout << "skipping" << std::endl;
 	
 	std::cout << std::endl << "_______BETTIS_______" << std::endl;
 	
-	for(auto a : wD->bettiTable){
+	for(auto a : mergedBettiTable){
 		std::cout << a.bettiDim << ",\t" << a.birth << ",\t" << a.death << ",\t";
 		ut.print1DVector(a.boundaryPoints);
 	}
-- 
2.43.0


From b22ed5204a74f6fc97f624e14f4491b35ad77d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:17 +0000
Subject: [PATCH 30/42] fix: the boundary stage does not read past its list of
 betti numbers

---
 Pipes/boundaryPipe.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/boundaryPipe.cpp b/Pipes/boundaryPipe.cpp
index c493891..a354928 100644
--- a/Pipes/boundaryPipe.cpp
+++ b/Pipes/boundaryPipe.cpp
@@ -286,7 +286,7 @@ pipePacket boundaryPipe::runPipe(pipePacket inData){
 	
 	for(int i = 0; i < dim; i ++){
 		bettiDef_t lastBetti = {0.0,i,0};
-		for(int j = bettis.size(); j >= 0; j--){
+		for(int j = (int)bettis.size() - 1; j >= 0; j--){
 			int lastBirth;
 			
 			if(bettis[j].dim == i){
-- 
2.43.0


From 28ffc078728c5503024ab45bf89bc4bc5382e71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 31/42] fix: reducing a boundary matrix does not look at a row
 after the last was removed

---
 Pipes/boundaryPipe.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Pipes/boundaryPipe.cpp b/Pipes/boundaryPipe.cpp
index a354928..0fb5558 100644
--- a/Pipes/boundaryPipe.cpp
+++ b/Pipes/boundaryPipe.cpp
@@ -58,7 +58,8 @@ std::pair<std::vector<std::vector<unsigned>>,std::pair<int,int>> boundaryPipe::r
 		return std::make_pair(ret,std::make_pair(0,0));
 		
 	//Step through each column and search for a 1 in that column
-	for(unsigned i = 0; i < boundaryMatrix[0].size(); i++){
+	unsigned columns = boundaryMatrix[0].size();
+	for(unsigned i = 0; i < columns; i++){
 		//Step through each vector
 		for(unsigned j = 0; j < boundaryMatrix.size(); j++){
 			
-- 
2.43.0


From 875d42ee650b667e2cea54a29e96f23acad0eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 32/42] fix: the sliding window drops deleted points from its
 distance matrix

---
 Pipes/slidingWindow.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 20b4a45..bfc8d25 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -70,17 +70,27 @@ void slidingWindow::updateStats()
     std::vector<double> distsFromCurrVecTP;  // A vector to store the distances from the current vector to the ones in the target partition.
     std::vector<int> tpIndices; // A vector to store the positions of the existing members of the target partition.
 
+    // Remove the row and column of the deleted point from the upper triangular distance matrix.
+    pPack->complex->distMatrix.erase( pPack->complex->distMatrix.begin() + defaultVals->indexToBeDeleted );
+    for(auto &row : pPack->complex->distMatrix)
+        row.erase( row.begin() + defaultVals->indexToBeDeleted );
+
     // Add a new column and row to the end of the upper triangular distance matrix.
     for(unsigned int i = 0; i < pPack->complex->distMatrix.size(); i++)
     {
         pPack->complex->distMatrix[i].push_back( defaultVals->distsFromCurrVec[i] );
 
+        // The points behind the deleted one have moved forward by one position.
+        bool lostNN = defaultVals->nnIndices[i] == defaultVals->indexToBeDeleted;
+        if ( defaultVals->nnIndices[i] > defaultVals->indexToBeDeleted )
+            defaultVals->nnIndices[i]--;
+
         // Update NN statistics for only those partitions from which the point was deleted or to which the new point is to be added.
         // Case 1: The i-th point belongs to the partition the last point was deleted from, but not to the partition the new point is
         // to be added to. And, the point that was deleted was the nearest neighbor of the i-th point.
         if ( defaultVals->partitionLabels[i] == defaultVals->labelToBeDeleted
                 &&  defaultVals->partitionLabels[i] != defaultVals->targetPartition
-                && defaultVals->nnIndices[i] == defaultVals->indexToBeDeleted )
+                && lostNN )
         {
 
             // If only one point remains in the partition from which the last point was deleted:
@@ -199,7 +209,7 @@ void slidingWindow::updateStats()
                 sumNewNNdists = sumNewNNdists + defaultVals->nnDists[i];
             }
 
-            else if ( defaultVals->nnIndices[i] == defaultVals->indexToBeDeleted )
+            else if ( lostNN )
             {
                 distsFromCurrVecTP.push_back( defaultVals->distsFromCurrVec[i] );
                 tpIndices.push_back(i);
@@ -241,6 +251,7 @@ void slidingWindow::updateStats()
         }
 
     }
+    defaultVals->distMatLastRow.assign( defaultVals->windowMaxSize, 0 );
     pPack->complex->distMatrix.push_back( defaultVals->distMatLastRow );
 
     // Update the average NN distance of the partition from which the last point was deleted and of the one to which the new point
-- 
2.43.0


From d957986cfebbb052b845bbbc46d3c33a35f6c403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 33/42] fix: a sliding window point that lost its nearest
 neighbour considers the new point

---
 Pipes/slidingWindow.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index bfc8d25..b69786e 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -219,7 +219,7 @@ void slidingWindow::updateStats()
                 std::vector<double> memberDistsFromVect;
                 std::vector<int> memberIndices;
 
-                for(unsigned int j = 0; j < defaultVals->windowMaxSize; j++)
+                for(unsigned int j = 0; j < pPack->complex->distMatrix.size(); j++)
                 {
                     if ( defaultVals->partitionLabels[j] == defaultVals->labelToBeDeleted )
                     {
@@ -239,6 +239,13 @@ void slidingWindow::updateStats()
                 defaultVals->nnIndices[i] = memberIndices[tempIdx];
 
                 auto newNNdistFromVect = *std::min_element( memberDistsFromVect.begin(), memberDistsFromVect.end() );
+
+                // The new point may be nearer than the remaining members.
+                if ( defaultVals->distsFromCurrVec[i] < newNNdistFromVect )
+                {
+                    newNNdistFromVect = defaultVals->distsFromCurrVec[i];
+                    defaultVals->nnIndices[i] = defaultVals->windowMaxSize - 1;
+                }
                 defaultVals->nnDists[i] = newNNdistFromVect;
                 sumNewNNdists = sumNewNNdists + newNNdistFromVect;
             }
-- 
2.43.0


From b1662b29361e3bf7b8ea07c0d4274e49cfd49ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 34/42] fix: the sliding window deletes from a partition other
 than the target's

---
 Pipes/slidingWindow.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index b69786e..005ee48 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -455,7 +455,7 @@ bool slidingWindow::nnBasedEvaluator(std::vector<double>& currentVector, std::ve
                 // we'll delete the oldest point from a partition label != targetPartition label.
 
                 // Find the first occurrence of a partition label != targetPartition label.
-                defaultVals->indexToBeDeleted = std::find( defaultVals->partitionLabels.begin(), defaultVals->partitionLabels.end(), !defaultVals->targetPartition ) - defaultVals->partitionLabels.begin();
+                defaultVals->indexToBeDeleted = std::find_if( defaultVals->partitionLabels.begin(), defaultVals->partitionLabels.end(), [](int label){ return label != defaultVals->targetPartition; } ) - defaultVals->partitionLabels.begin();
                 defaultVals->labelToBeDeleted = defaultVals->partitionLabels[defaultVals->indexToBeDeleted];
 
                 deleteNNstats();
-- 
2.43.0


From b1249a66778f1f16ce63f702c78ae77361a05815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 35/42] fix: the sliding window updates its statistics for
 every point it accepts

---
 Pipes/slidingWindow.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 005ee48..4633965 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -463,6 +463,9 @@ bool slidingWindow::nnBasedEvaluator(std::vector<double>& currentVector, std::ve
             }
         }
 
+        // Add to the distance matrix and update the NN statistics.
+        updateStats();
+
         return true;
     }
 
-- 
2.43.0


From cd41f45c159484c9a8f69512205e62721418a6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 36/42] fix: every sliding window run starts with an empty
 window

---
 Pipes/slidingWindow.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 4633965..984177c 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -533,6 +533,10 @@ pipePacket slidingWindow::runPipe(pipePacket inData)
 
     std::vector<std::vector<double>> windowValues;
 
+    // Start from an empty window, whatever stream was evaluated before
+    int windowMaxSize = defaultVals->windowMaxSize;
+    *defaultVals = EvalParams{ windowMaxSize, 0, 0 };
+
     std::vector<double> currentVector;
     if(rp.streamInit(inputFile))
     {
-- 
2.43.0


From 98940975f2274f4c1ace309d2f60108d55939fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:05 +0000
Subject: [PATCH 37/42] fix: the sliding window reports the intervals of the
 points it holds

---
 Pipes/slidingWindow.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Pipes/slidingWindow.cpp b/Pipes/slidingWindow.cpp
index 984177c..94444a6 100644
--- a/Pipes/slidingWindow.cpp
+++ b/Pipes/slidingWindow.cpp
@@ -610,6 +610,8 @@ pipePacket slidingWindow::runPipe(pipePacket inData)
         {
             std::cout << "pointCounter: " << pointCounter << "\tSimplex Count: " << inData.complex->simplexCount() << "\tVertex Count: " << inData.complex->vertexCount() << std::endl;
 
+            if (windowValues.size() == defaultVals->windowMaxSize)
+                inData.originalData = windowValues;
             runSubPipeline(inData);
         }
         ut.writeLog("slidingWindow", "\tSuccessfully evaluated " + std::to_string(pointCounter) + " points");
@@ -641,6 +643,11 @@ void slidingWindow::runSubPipeline(pipePacket wrData)
     pipePacket inData = wrData;
     outputData(inData);
 
+    // The complex has to hold the points that are in the window now
+    inData.complex->clear();
+    for(auto &vec : inData.originalData)
+        inData.complex->insert(vec);
+
     std::string pipeFuncts = "rips.persistence";
     auto lim = count(pipeFuncts.begin(), pipeFuncts.end(), '.') + 1;
     subConfigMap["fn"] = "_" + std::to_string(repCounter);
-- 
2.43.0


From 8e3ba0bc3a1c0fd9c8767e9730e854f81cd74feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:12 +0000
Subject: [PATCH 38/42] fix: an unknown complex type is refused instead of
 dereferencing null

---
 LHFmain/main.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/LHFmain/main.cpp b/LHFmain/main.cpp
index 4d989a1..9f5ad05 100644
--- a/LHFmain/main.cpp
+++ b/LHFmain/main.cpp
@@ -281,6 +281,13 @@ int main(int argc, char* argv[]){
 	//Create a pipePacket (datatype) to store the complex and pass between engines
     auto *wD = new pipePacket(args, args["complexType"]);	//wD (workingData)
 	
+	//Without a complex there is nothing to run
+	if(wD->complex == 0){
+		cout << "LHF : Unknown complex type: " << args["complexType"] << endl;
+		ap->printUsage();
+		return 1;
+	}
+	
 	if(args["pipeline"] != "slidingwindow"){
 		//Read data from inputFile CSV
 		wD->originalData = rs->readCSV(args["inputFile"]);
-- 
2.43.0


From 511eda60ef42d22fcaaf24b346f56322bb8406ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:45 +0000
Subject: [PATCH 39/42] fix: deleting a branch of the simplex tree does not
 write to the freed node

---
 Complex/simplexTree.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 0a0ad7c..0c72b81 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -546,7 +546,6 @@ bool simplexTree::deletion(treeNode* removalEntry) {
 	deletionCount++;
 	delete curNode;
 	nodeCount--;
-	removalEntry->child = nullptr;
 	return false;
 }
 
-- 
2.43.0


From 0ac84004bdde3eb4a55bd72c0c4861d00175da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:09 +0000
Subject: [PATCH 40/42] fix: listing a dimension above the top of the simplex
 tree is empty instead of reading past its lists

---
 Complex/simplexTree.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Complex/simplexTree.cpp b/Complex/simplexTree.cpp
index 0c72b81..ca36c0a 100644
--- a/Complex/simplexTree.cpp
+++ b/Complex/simplexTree.cpp
@@ -473,7 +473,7 @@ std::pair<std::vector<std::set<unsigned>>, std::vector<std::set<unsigned>>> simp
 std::vector<std::vector<unsigned>> simplexTree::getDimEdges(int d,double){
 	std::vector<std::vector<unsigned>> ret;
 
-	if(weightEdgeGraph.size() >= d){
+	if(d >= 0 && weightEdgeGraph.size() > d){
 		for(auto z : weightEdgeGraph[d]){
 			std::vector<unsigned> temp(z.first.begin(), z.first.end());
 			ret.push_back(temp);
-- 
2.43.0


From cb1c59ee9cbe56063308f1b82fa0bea8273f9ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:44 +0000
Subject: [PATCH 41/42] fix: clear() on the indexed simplex tree left every
 node in place

---
 Complex/indSimplexTree.cpp | 19 +++++++++++++++++++
 Complex/indSimplexTree.hpp |  1 +
 2 files changed, 20 insertions(+)

diff --git a/Complex/indSimplexTree.cpp b/Complex/indSimplexTree.cpp
index 2f376f6..b389099 100644
--- a/Complex/indSimplexTree.cpp
+++ b/Complex/indSimplexTree.cpp
@@ -568,6 +568,25 @@ bool indSimplexTree::deletion(indTreeNode* removalEntry) {
 	return false;
 }
 
+void indSimplexTree::clear(){
+	
+	//Every node of the tree is held in exactly one of the dimensional lists
+	for(auto& nodes : dimensions){
+		for(auto node : nodes)
+			delete node;
+	}
+	dimensions.clear();
+	indexedGraph.clear();
+	dimCounts.assign(dimCounts.size(), 0);
+	
+	head = nullptr;
+	nodeCount = 0;
+	indexCounter = 0;
+	isSorted = false;
+	
+	return;
+}
+
 int indSimplexTree::vertexCount(){
 	//Return the number of vertices in the tree
 	if(dimensions.size() == 0)
diff --git a/Complex/indSimplexTree.hpp b/Complex/indSimplexTree.hpp
index 633c8a1..a57a272 100644
--- a/Complex/indSimplexTree.hpp
+++ b/Complex/indSimplexTree.hpp
@@ -46,6 +46,7 @@ class indSimplexTree : public simplexBase {
 	bool find(std::set<unsigned>);
 	int simplexCount();
 	int vertexCount();
+	void clear();
 	std::vector<std::vector<unsigned>> getDimEdges(int,double);
 	std::vector<std::vector<std::pair<std::set<unsigned>,double>>> getAllEdges(double);
 	std::vector<std::vector<graphEntry>> getIndexEdges(double);
-- 
2.43.0


From c16d7ccd2ae3f5f3c2239f1d548207e24e49c7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:11 +0000
Subject: [PATCH 42/42] fix: boundaryPipe::extractBoundaries appended to the
 list it was iterating, and read the first row of an empty matrix

---
 Pipes/boundaryPipe.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/Pipes/boundaryPipe.cpp b/Pipes/boundaryPipe.cpp
index 0fb5558..6af2a3c 100644
--- a/Pipes/boundaryPipe.cpp
+++ b/Pipes/boundaryPipe.cpp
@@ -137,6 +137,9 @@ std::pair<std::vector<std::vector<unsigned>>,std::pair<int,int>> boundaryPipe::b
 std::vector<std::vector<unsigned>> boundaryPipe::extractBoundaries(std::vector<std::vector<unsigned>> edges, std::vector<std::vector<unsigned>> boundaryMatrix, int nullity){
 	std::vector<std::vector<unsigned>> boundaries;
 	
+	if(boundaryMatrix.size() == 0)
+		return boundaries;
+	
 	//Iterate through each boundary 
 	//	nullity = (dim - rank)
 	//	Aggregate edges that form the constituent boundary
@@ -166,14 +169,14 @@ std::vector<std::vector<unsigned>> boundaryPipe::extractBoundaries(std::vector<s
 			std::cout << "Found Boundary\t";
 			ut.print1DVector(currentBoundary);
 			
-			if(boundaries.size() == 0){
-				boundaries.push_back(currentBoundary);
-			} else {
-				for(auto a : boundaries){
-					if(ut.setIntersect(currentBoundary, a, false).size() == 0)
-						boundaries.push_back(currentBoundary);
-				}
+			//Keep the boundary if it is disjoint from all boundaries found so far
+			bool disjoint = true;
+			for(auto a : boundaries){
+				if(ut.setIntersect(currentBoundary, a, false).size() != 0)
+					disjoint = false;
 			}
+			if(disjoint)
+				boundaries.push_back(currentBoundary);
 		}
 		
 	}
-- 
2.43.0

