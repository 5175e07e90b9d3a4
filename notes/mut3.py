F='src/cellimage/foureightsegmentation.cxx'; FH='src/cellimage/foureightsegmentation.hxx'; CI='src/cellimage/cellimage.hxx'; CP='src/cellimage/cellpyramid.hxx'; CM='src/cellimage/cellimage_module.cxx'; CMH='src/cellimage/cellimage_module.hxx'; CD='src/cellimage/cellimage_dart+info.cxx'
M('i01-anchor-loop','P24',[(F,"    if(--node2.degree && node2.anchor.isSingular())\n        node2.anchor.carefulNextSigma();\n\n    // update bounds and sizes:","    if(--node2.degree > 1 && node2.anchor.isSingular())\n        node2.anchor.carefulNextSigma();\n\n    // update bounds and sizes:")])
M('i02-comp-anchor','P24',[(F,"            if(!contour->isSingular() &&\n               (contour->edgeLabel() == dart.edgeLabel()))","            if(contour->edgeLabel() == dart.edgeLabel())")])
M('i03-contours-order','P24',[(F,"    for(unsigned int i = 0; i < mergedFace.contours.size(); ++i)\n        if(i != contour2)","    for(unsigned int i = 0; i < mergedFace.contours.size(); ++i)\n        if(i > contour2)")])
M('i04-bounds','P24',[(F,"    survivor.bounds |= node.bounds;\n","")])
M('i05-bridge-bounds','P24',[(F,"    face.bounds |= edge.bounds;\n","")])
M('i06-removenode-right','P24',[(F,"    if(dart1.leftFaceLabel() != dart1.rightFaceLabel())\n        removeNodeFromContours","    if(dart1.leftFaceLabel() > dart1.rightFaceLabel())\n        removeNodeFromContours")])
M('i07-copy-reparent','P24 P25',[(F,"            contour->reparent(this);","            if(contour == it->contours.begin()) contour->reparent(this);")])
M('i08-size-node','P24',[(F,"    face.size += node.size;\n","    face.size += 1;\n")])
M('i09-hole-label','P23',[(F,"                            if(crackCirculatedAreas[node->label] == node->size)\n                                goto HolesStuffed; // double break","                            goto HolesStuffed; // double break")])
M('i10-import-maxface','P23 P35',[(F,"    if(p.label() > maxLabel_)\n            maxLabel_","    if(p.label() > maxLabel_ + 0u && p.label() != 255)\n            maxLabel_")])
M('i11-innercontour','P23',[(F,"                    if(contourIndex == 0 || contourProcessed[contourIndex])\n                        continue;","                    if(contourIndex == 0 || contourProcessed[contourIndex] || neighbor.isDiagonal())\n                        continue;")])
M('i12-loop-two','P23',[(F,"                if(circ->label() != 0)\n                    continue;\n\n                labelEdge(circ, ++maxEdgeLabel);\n            }\n            while(++circ != circEnd);","                if(circ->label() != 0)\n                    continue;\n\n                labelEdge(circ, ++maxEdgeLabel);\n                break;\n            }\n            while(++circ != circEnd);")])
M('i13-facelabel','P23',[(F,"        false, // eight_neighbors = false -> 4-neighborhood","        true, // eight_neighbors")])
M('i14-survivor-size','P24',[(F,"    survivor.size += mergedEdge.size;\n    survivor.bounds |= mergedFace.bounds;","    survivor.size += mergedEdge.bounds.area();\n    survivor.bounds |= mergedFace.bounds;")])
M('i15-mergeedges-anchor','P24',[(F,"    survivor.start = dart1;\n    survivor.end = dart2;","    (survivor.start.startNodeLabel() == node.label ? survivor.start : survivor.end) = dart2;")])
M('i16-inf-face','P24',[(F,"    if(dart.leftFace().bounds.area() < dart.rightFace().bounds.area())\n        removedDart","    if(dart.leftFace().size < dart.rightFace().size)\n        removedDart")])
M('y01-ckpt','P25',[(CP,"            if((index() <= levelIndex) && (lastCheckpointIt->first <= index()))","            if((index() <= levelIndex) || (lastCheckpointIt->first == index()))")])
M('y02-cut','P25',[(CP,"        checkpoints_.erase(checkpoints_.upper_bound(topLevel_.index()),\n                           checkpoints_.end());","        checkpoints_.erase(checkpoints_.upper_bound(topLevel_.index() + 1),\n                           checkpoints_.end());")])
M('y03-withends','P25',[(CP,"                  if((node1.label != node2.label) && (node2.degree == 0))","                  else if((node1.label != node2.label) && (node2.degree == 0))")])
M('y04-pop','P25',[(CP,"            catch(...)\n            {\n                opList.pop_back();\n                throw;","            catch(...)\n            {\n                throw;")])
M('y05-composite','P25',[(CP,"            checkpoints_.erase(topLevel_.index_--);","            --topLevel_.index_;")])
M('y06-approach','P25',[(CP,"            return (index_ == gotoLevelIndex);","            return step <= maxSteps;")])
M('y07-empty','P25',[(CP,"            if(last.opList->size() == 1)\n            {","            if(last.opList->size() <= 2 && last.opList->back().type == RemoveIsolatedNode)\n            {")])
M('y08-serialize','P25',[(CP,"        if(topLevel_.index() != level.index())\n        {\n            topLevel_ = level;","        if(topLevel_.index() != level.index())\n        {\n            topLevel_.segmentation_ = level.segmentation_; topLevel_.index_ = level.index_; topLevel_.subIndex_ = level.subIndex_;")])
M('j01-nodepos','P35',[(CD,"        if(it_->type() == CellTypeVertex)\n            return it_.neighborCirculator().base() - cellsUL_;","        if(it_.atEnd() && !it_.neighborCirculator().isDiagonal())\n            return it_.neighborCirculator().base() - cellsUL_;")])
M('j02-edgelist','P35',[(CMH,"index >= (long)segmentation_->maxEdgeLabel())","index > (long)segmentation_->maxEdgeLabel())")])
M('j03-facelen','P35',[(CMH,"        return segmentation_->faceCount();","        return segmentation_->maxFaceLabel();")])
M('j04-getxy','P35',[(CM,"    vigra_precondition(x >= 0 && x < image.width() &&\n                       y >= 0 && y < image.height(),\n                       \"coordinates out of range.\");\n    return image(x, y);","    vigra_precondition(x >= 0 && x < image.width() &&\n                       y >= 0 && y <= image.height(),\n                       \"coordinates out of range.\");\n    return image(x, y);")])
M('j05-settype','P35',[(CI,"    inline void setType(CellType type)\n        { typeLabel_ = (label() << 2) | type; }","    inline void setType(CellType type)\n        { typeLabel_ |= type; }")])
M('j06-bval','P35',[(CM,"		srcImageRange(image), boundaryValue, cornerType);","		srcImageRange(image), (int)boundaryValue, cornerType);")])
M('j07-contour','P35',[(CD,"	if(index < 0 || index >= (long)contours.size())","	if(index < -1 || index >= (long)contours.size())")])
M('h01-edgel','P23 P35',[(FH,"        if(neighborCirc_.isDiagonal() &&\n           (neighborCirc_[1].type() != CellTypeRegion))\n            ++neighborCirc_;\n\n        atEnd_","        if(neighborCirc_.isDiagonal() &&\n           (neighborCirc_[1].type() == CellTypeLine))\n            ++neighborCirc_;\n\n        atEnd_")])
M('h02-alpha','P23 P24',[(FH,"                return operator=(\n                    operator==(cEdge.start) ? cEdge.end : cEdge.start);","                return operator=(\n                    startNodeLabel() == cEdge.start.startNodeLabel() ? cEdge.end : cEdge.start);")])
M('h03-scan','P23',[(FH,"                if(cellIter_.y != cellLR_.y)\n                {\n                    if(*cellIter_ != cellPixelValue_)\n                        operator++();","                if(cellIter_.y != cellLR_.y)\n                {\n                    if(*cellIter_ != cellPixelValue_ || width_ == 1)\n                        operator++();")])
M('h04-eq','P23 P24',[(FH,"            if(!isSingular())\n                return neighborCirc_ == o.neighborCirc_;\n            else\n                return startNodeLabel() == o.startNodeLabel();","            return neighborCirc_ == o.neighborCirc_;")])
M('h05-ser','P25',[(FH,"                cPos.x << 14 | cPos.y;","                cPos.x << 14 | (cPos.y & 0xff);")])
M('h06-prevsig','P23',[(FH,"                if(neighborCirc_->type() == CellTypeVertex)\n                {\n                    neighborCirc_.swapCenterNeighbor();\n                    --neighborCirc_;\n                }\n                tryPrevSigma();","                if(neighborCirc_->type() == CellTypeVertex)\n                {\n                    neighborCirc_.swapCenterNeighbor();\n                }\n                tryPrevSigma();")])
M('h07-left','P23',[(FH,"            return neighborCirc_[1].type() == CellTypeRegion\n                      ? neighborCirc_[1].label()\n                      : neighborCirc_[2].label();","            return neighborCirc_[1].type() != CellTypeVertex\n                      ? neighborCirc_[1].label()\n                      : neighborCirc_[2].label();")])
M('h08-reparent','P24 P25',[(FH,"                neighborCirc_.direction());\n            segmentation_ = segmentation;","                neighborCirc_.direction());\n            if(!segmentation_->initialized()) segmentation_ = segmentation;")])
M('h09-careful','P24',[(FH,"                if(neighborCirc_->type() == CellTypeVertex)\n                {\n                    neighborCirc_.swapCenterNeighbor();\n                    ++neighborCirc_;\n                }\n                tryNextSigma();\n                if(neighborCirc_ == nend)","                if(neighborCirc_->type() == CellTypeVertex)\n                {\n                    neighborCirc_.swapCenterNeighbor();\n                    ++neighborCirc_;\n                }\n                ++neighborCirc_;\n                if(neighborCirc_ == nend)")])
