C='src/geomap/cppmap.cxx'; H='src/geomap/cppmap.hxx'; U='src/geomap/cppmap_utils.cxx'; UH='src/geomap/cppmap_utils.hxx'
M('c01-outer-nested','P01 P10',[(C,"bool newOuterContour = (contour2 != mergedFace.anchors_.begin());","bool newOuterContour = (contour2 != mergedFace.anchors_.begin()) && survivor.anchors_.size() == 1;")])
M('c02-setpos-scan','P02',[(C,"            edge.scanLines_.reset();\n            if(map_->mapInitialized())","            if(d.label() > 0)\n                edge.scanLines_.reset();\n            if(map_->mapInitialized())")])
M('c03-setpos-nodemap','P07',[(C,"    map_->nodeMap_.insert(PositionedNodeLabel(p, label_));","    if(!isIsolated())\n        map_->nodeMap_.insert(PositionedNodeLabel(p, label_));")])
M('c04-concat-scan','P02 P03',[(C,"            otherScanLines.reverse();\n        (*scanLines_) += otherScanLines;","            ;\n        (*scanLines_) += otherScanLines;")])
M('c05-copy-lut','P06',[(C,"            faceLabelLUT_ = other.faceLabelLUT_;","            faceLabelLUT_.initIdentity(other.faceLabelLUT_.size());")])
M('c06-hook-order','P05',[(C,"    if(!preMergeEdgesHook(d1))\n        return NULL_PTR(GeoMap::Edge);\n    if(!removeNodeHook(mergedNode))\n        return NULL_PTR(GeoMap::Edge);","    if(!removeNodeHook(mergedNode))\n        return NULL_PTR(GeoMap::Edge);\n    if(!preMergeEdgesHook(d1))\n        return NULL_PTR(GeoMap::Edge);")])
M('c07-split-anchor','P01',[(C,"        if(changedNode.anchor_ == -(int)edge.label())\n            changedNode.anchor_ = -(int)result->label();","        if(changedNode.anchor_ == -(int)edge.label() && !edge.isLoop())\n            changedNode.anchor_ = -(int)result->label();")])
M('c08-sigma-size','P01 P08',[(C,"    if(sigmaMappingArray_.size() < 2*result->label()+1)","    if(sigmaMappingArray_.size() < 2*result->label())")])
M('c09-assoc-order','P05',[(C,"    face.pixelArea_ += pixels.size();\n//     for(unsigned int i = 0; i < pixels.size(); ++i)\n//         pixelBounds_ |= pixels[i];\n    associatePixelsHook(face, pixels);","    associatePixelsHook(face, pixels);\n    face.pixelArea_ += pixels.size();")])
M('c10-abscmp','P08',[(C,"if(std::fabs(absdiff) < 1e-2 && ((a1 < 0) != (a2 < 0)))","if(std::fabs(absdiff) < 1e-2 && std::fabs(a1) > 1 && ((a1 < 0) != (a2 < 0)))")])
M('c11-split-flags2','P04 P11',[(C,"    result->flags_ = edge.flags_;","    result->flags_ = edge.flags_ & GeoMap::Edge::ALL_PROTECTION;")])
M('c12-bridge-pixels','P05 P12',[(C,"""    if(associatedPixels.size())
        associatePixels(face, associatedPixels);""","""    if(associatedPixels.size() && face.label())
        associatePixels(face, associatedPixels);""")])
M('c13-lut','P03 P04',[(C,"        faceLabelLUT_.relabel(mergedFace.label(), survivor.label());","        if(mergedFace.pixelArea())\n            faceLabelLUT_.relabel(mergedFace.label(), survivor.label());")])
M('c14-bridge-veto','P05 P10',[(C,"        removeIsolatedNode(*newAnchor1.startNode());\n        if(newAnchor2.edgeLabel() == dart.edgeLabel())\n        {\n            removeIsolatedNode(*newAnchor2.startNode());","        bool rem = removeIsolatedNode(*newAnchor1.startNode());\n        if(newAnchor2.edgeLabel() == dart.edgeLabel())\n        {\n            if(rem)\n                removeIsolatedNode(*newAnchor2.startNode());")])
M('c15-area-hole','P02',[(C,"    if(flag(AREA_VALID))\n        area_ += contourArea(dart);","    if(flag(AREA_VALID) && dart == anchor)\n        area_ += dart.partialArea();")])
M('c16-contains-bbox','P07 P02',[(H,"        if(!flag(BOUNDING_BOX_VALID))\n        {\n            boundingBox_ = BoundingBox();\n            Dart anchor","        if(!flag(BOUNDING_BOX_VALID))\n        {\n            Dart anchor")])
M('c17-hasdegree','P10',[(H,"            return exactDegree == 1;\n    }\n    while(--exactDegree);\n    return false;","            return exactDegree <= 1;\n    }\n    while(--exactDegree);\n    return true;")])
M('c18-setlabelimage','P03',[(C,"        std::stable_sort(finiteFaces.begin(), finiteFaces.end(),\n                         OuterContourAreaCompare());","        if(finiteFaces.size() > 8)\n        std::stable_sort(finiteFaces.begin(), finiteFaces.end(),\n                         OuterContourAreaCompare());")])
M('c19-labelimg-infinite','P03',[(C,"        face(0)->pixelArea_ = 0;\n        for(GeoMap::Faces::iterator","        for(GeoMap::Faces::iterator")])
M('c20-addedge-loop','P08',[(C,"    if((endNeighbor == startNeighbor) && result->partialArea() < 0)","    if((endNeighbor == startNeighbor) && result->partialArea() < -1)")])
M('c21-setsigma','P08 P20',[(C,"    std::copy(sigma - (edges_.size() - 1), sigma + edges_.size(),","    std::copy(sigma - (edges_.size() - 1), sigma + edges_.size() - 1,")])
M('c22-mergecompl','P10',[(U,"        if(mergeDegree2Nodes && node->hasDegree(2))\n        {\n            d = node->anchor();\n            if(d.endNodeLabel() != node->label())\n                map->mergeEdges(d);","        else if(mergeDegree2Nodes && node->hasDegree(2))\n        {\n            d = node->anchor();\n            if(!d.edge()->isLoop() && d.endNode()->degree() > 1)\n                map->mergeEdges(d);")])
M('c23-mergecompl-prot','P10 P11',[(U,"            if(d.edge()->flag(GeoMap::Edge::ALL_PROTECTION))","            if(d.edge()->flag(GeoMap::Edge::BORDER_PROTECTION))")])
M('c24-bridges-flag','P10',[(U,"                bridge->setFlag(UNREMOVABLE_BRIDGE |\n                                GeoMap::Edge::REMOVE_BRIDGE, false); // clean up","                bridge->setFlag(UNREMOVABLE_BRIDGE, false); // clean up")])
M('c25-deg2-loop','P10',[(U,"            if(!(*it)->anchor().edge()->isLoop() &&","            if(!(*it)->anchor().edge()->isLoop() && !dart.edge()->isBridge() &&")])
M('c26-node-copy','P06',[(H,"      position_(other.position_),\n      anchor_(other.anchor_)\n    {\n        map_->nodeMap_.insert(PositionedNodeLabel(position_, label_));","      position_(other.position_),\n      anchor_(other.anchor_)\n    {\n        if(anchor_)\n            map_->nodeMap_.insert(PositionedNodeLabel(position_, label_));")])
M('c27-face-copyflags','P06',[(H,"      label_(other.label_),\n      flags_(other.flags_),\n      boundingBox_(other.boundingBox_),\n      area_(other.area_),","      label_(other.label_),\n      flags_(other.flags_ & INTERNAL_FLAGS),\n      boundingBox_(other.boundingBox_),\n      area_(other.area_),")])
M('c28-faceat-const','P07',[(C,"    for(ConstFaceIterator it = finiteFacesBegin(); it.inRange(); ++it)\n        if((*it)->contains(position))\n            return *it;\n\n    return face(0);","    for(ConstFaceIterator it = facesBegin(); it.inRange(); ++it)\n        if((*it)->label() && (*it)->holeCount() == 0 && (*it)->contains(position))\n            return *it;\n\n    return face(0);")])
M('c29-changelabels','P20 P09 P32',[(C,"        transformMultiArray(srcMultiArrayRange(*labelImage_, labelAccessor()),","        transformMultiArray(srcMultiArrayRange(*labelImage_),")])
M('c30-detach-anchor','P01 P08',[(C,"        if(successor != dartLabel)\n            node.anchor_ = successor;","        if(successor != dartLabel)\n            node.anchor_ = sigmaMapping_[successor] == dartLabel ? predecessor : successor;")])
M('c31-nearest','P07 P16',[('src/geomap/vigra/map2d.hxx',"","")])
M('c32-hole-order','P01',[(C,"        *contourPos = newAnchor1;\n        face.anchors_.push_back(newAnchor2);","        *contourPos = newAnchor2;\n        face.anchors_.push_back(newAnchor1);")])
M('c33-mergeedges-anchor','P01',[(C,"                if(it->edgeLabel() == d2.edgeLabel())\n                {\n                    it->nextPhi();\n                    break;","                if(it->label() == d2.label())\n                {\n                    it->nextPhi();\n                    break;")])
M('c34-merge-area','P02',[(C,"    if(survivor.flag(GeoMap::Face::AREA_VALID))\n        survivor.area_ += mergedFace.area();","    if(survivor.flag(GeoMap::Face::AREA_VALID) && survivor.label())\n        survivor.area_ += mergedFace.area();")])
M('c35-setpos-face','P02',[(C,"                d.leftFace()->setFlag(\n                    Face::BOUNDING_BOX_VALID | Face::AREA_VALID, false);","                d.leftFace()->setFlag(\n                    Face::AREA_VALID, false);")])
M('c36-arclen','P17',[(H,"        if(!segmentIndex_)\n            arcLength_ = 0.0; // prevent","        if(segmentIndex_ < 2)\n            arcLength_ = 0.0; // prevent")])
M('c37-split-flagprop','P18',[(C,"            sigmaNeighborLabel = relocateDart.label();\n\n                // propagate flags set on any of the merged edges to the\n                // surviving, merged edge\n                survivor.edge()->setFlag(mergeDart.edge()->flags());","            sigmaNeighborLabel = relocateDart.label();\n")] if False else [(C,"        sigmaNeighborLabel = sigmaMapping_[sigmaCenterLabel];\n","        sigmaNeighborLabel = sigmaCenterLabel;\n")])
M('c38-sort-min','P18',[(C,"            if(prev->angle - firstGroupStart->angle >= minAngle)","            if(prev->angle - firstGroupStart->angle > 4*minAngle)")])
M('c39-unsort','P18',[(C,"    if(unsortableState)\n    {","    if(unsortableState && dpEnd - dpBegin == 2)\n    {")])
M('c40-contpoint','P02 P20',[(H,"                dpi_ = DartPointIter(dart_);\n                ++dpi_;","                dpi_ = DartPointIter(dart_);\n                if(dart_.label() > 0 || dart_.size() > 2)\n                    ++dpi_;")])
