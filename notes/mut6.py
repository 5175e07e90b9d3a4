CS='src/cellimage/cellstatistics.hxx'; CC='src/cellimage/cellstatistics.cxx'; SF='src/cellimage/statisticfunctor.hxx'
M('q01-left','P42',[(CS,"    tempFaceStatistics_(faceStatistics_[dart.rightFaceLabel()]);","    if(dart.leftFaceLabel()) tempFaceStatistics_(faceStatistics_[dart.rightFaceLabel()]);")])
M('q02-node','P42',[(CS,"    inspectCell(dart.segmentation()->nodeScanIterator\n                (d.startNodeLabel(), segmentationData->gradientMagnitude_.upperLeft()),\n                tempEdgeStatistics_);","    if(dart.segmentation()->node(d.startNodeLabel()).size == 1) inspectCell(dart.segmentation()->nodeScanIterator\n                (d.startNodeLabel(), segmentationData->gradientMagnitude_.upperLeft()),\n                tempEdgeStatistics_);")])
M('q03-border','P42',[(CS,"    if(!dart.leftFaceLabel() || !dart.rightFaceLabel())\n    {\n        tempEdge","    if(!dart.rightFaceLabel())\n    {\n        tempEdge")])
M('q04-prot','P42',[(CS,"                protectEdge(mergedEdges_[edgeLabel], flag, protect) || result;","                protectEdge(mergedEdges_[edgeLabel], flag, protect);")])
M('q05-last','P42',[(CS,"    lastChanges_ |= face.bounds;\n}\n\ninline void CellStatistics::preRemoveEdge","}\n\ninline void CellStatistics::preRemoveEdge")])
M('q06-xor','P42',[(CS,"        if(((edgeProtection_[edgeLabel] & flag) != 0) != protect)","        if((edgeProtection_[edgeLabel] != 0) != protect)")])
M('q07-assign','P42',[(CC,"\tmergedEdges_ = other.mergedEdges_;\n","")])
M('q08-face0','P42',[(CC,"    for(++faceIt; faceIt.inRange(); ++faceIt)","    for(; faceIt.inRange(); ++faceIt)")])
M('q09-thr','P42',[(CS,"            if(protectEdge(it->label, EPCanny,\n                           (edgelCount() > it->size","            if(protectEdge(it->label, EPCanny,\n                           (edgelCount() >= it->size")])
M('q13-tree','P42',[(CS,"    while(mergedEdges_[targetLabel] != targetLabel)\n        targetLabel = mergedEdges_[targetLabel];","    if(mergedEdges_[targetLabel] != targetLabel)\n        targetLabel = mergedEdges_[targetLabel];")])
M('q14-rm','P42',[(SF,"\t\tsum_       += other.sum_;","\t\tif(count_ > 1) sum_       += other.sum_;")])
M('q15-auto','P42',[(CS,"    if(segDataBounds.contains(edge.bounds))","    if(segDataBounds.contains(edge.bounds) && edge.size > 2)")])
M('q10-cnt','P42',[(SF,"squareSum_ += other.squareSum_;","squareSum_ = other.squareSum_ + squareSum_ * (count_ > 0);")])
M('q11-center','P42',[(CC,"nodeLabel(), vigra::Point2D(0, 0), false","nodeLabel(), vigra::Point2D(0, 0), true")])
M('q12-center','P42',[(CC,"                    nodeIt->label, vigra::Point2D(0, 0), false));","                    nodeIt->label, vigra::Point2D(0, 0)));")])
