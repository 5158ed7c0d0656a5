import sys; sys.path.insert(0,'/verif/tools'); from seed import mk
S='Src/libCZI/'
GET='''static std::vector<uint8_t> Bytes(const std::shared_ptr<IBitmapData>& b){ ScopedBitmapLockerSP l{b}; std::vector<uint8_t> r; size_t n=b->GetWidth()*Utils::GetBytesPerPixel(b->GetPixelType()); for(uint32_t y=0;y<b->GetHeight();++y){ auto p=(const uint8_t*)l.ptrDataRoi+(size_t)y*l.stride; r.insert(r.end(),p,p+n);} return r; }
'''
mk('P11-unindexed-on-top','P11','a plane where tiles with and without tile index overlap','tiles without tile index are painted over tiles with one when sorting is requested',
 [(S+'SingleChannelTileAccessor.cpp','''                const int mIndex1 = Utils::IsValidMindex(i1.mIndex) ? i1.mIndex : (numeric_limits<int>::min)();
                const int mIndex2 = Utils::IsValidMindex(i2.mIndex) ? i2.mIndex : (numeric_limits<int>::min)();
                return mIndex1 < mIndex2;''','''                const int mIndex1 = Utils::IsValidMindex(i1.mIndex) ? i1.mIndex : (numeric_limits<int>::max)();
                const int mIndex2 = Utils::IsValidMindex(i2.mIndex) ? i2.mIndex : (numeric_limits<int>::max)();
                return mIndex1 < mIndex2;''')],
 GET+'''int main(){ auto f=WriteTiles({Tile{"C0",3,0,0,4,4,4,4,PixelType::Gray8,30},Tile{"C0",-1,0,0,4,4,4,4,PixelType::Gray8,99},Tile{"C0",1,0,0,4,4,4,4,PixelType::Gray8,10}}); auto r=Open(f); auto a=r->CreateSingleChannelTileAccessor(); auto c=Coord("C0"); ISingleChannelTileAccessor::Options o; o.Clear(); o.sortByM=true;
 auto b=a->Get(IntRect{0,0,4,4},&c,&o); for(auto v:Bytes(b)) if(v!=30) return fail("the tile with the highest index is not on top"); return 0; }''')
mk('P11-mask-offset','P11','a tile with a valid-pixel mask that is clipped at its left by eight or more pixels','the mask is applied at the wrong columns',
 [(S+'BitmapOperationsBitonal.cpp','copy_parameters.maskOffsetX = top_left_src_bitmap.x;','copy_parameters.maskOffsetX = top_left_src_bitmap.x & 7;')],
 GET+'''int main(){ Tile t{"C0",0,0,0,24,4,24,4,PixelType::Gray8,9}; auto d=Pix(t); std::vector<uint8_t> k; auto u=[&](uint32_t v){ for(int i=0;i<4;++i) k.push_back((uint8_t)(v>>(8*i))); }; const uint8_t g[16]={0x67,0xEA,0xE3,0xCB,0xFC,0x5B,0x2B,0x49,0xA1,0x6A,0xEC,0xE3,0x78,0x03,0x14,0x48}; k.insert(k.end(),g,g+16); u(16+12); u(24); u(4); u(0); u(3); for(int y=0;y<4;++y){ k.push_back(0); k.push_back(255); k.push_back(0); }
 std::string md="<METADATA><AttachmentSchema><DataFormat>CHUNKCONTAINER</DataFormat></AttachmentSchema></METADATA>"; auto i=Info(t,d); i.ptrSbBlkMetadata=md.data(); i.sbBlkMetadataSize=(uint32_t)md.size(); i.ptrSbBlkAttachment=k.data(); i.sbBlkAttachmentSize=(uint32_t)k.size(); auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); w->SyncAddSubBlock(i); w->Close();
 auto r=Open(f); auto a=r->CreateSingleChannelTileAccessor(); auto c=Coord("C0"); ISingleChannelTileAccessor::Options o; o.Clear(); o.maskAware=true; o.backGroundColor={0,0,0}; auto b=Bytes(a->Get(IntRect{10,0,10,4},&c,&o)); for(int y=0;y<4;++y) for(int x=0;x<10;++x) if(b[y*10+x]!=(x+10<16?9:0)) return fail("mask misplaced"); return 0; }''')
mk('P12-last-column','P12','a pyramid tile that only reaches into the last output column or row of the requested region','that tile is missing',
 [(S+'SingleChannelPyramidLevelTileAccessor.cpp','static_cast<int>(sizeBitmap.w) * sizeOfPixelOnLayer0,static_cast<int>(sizeBitmap.h) * sizeOfPixelOnLayer0 }','static_cast<int>(sizeBitmap.w) * sizeOfPixelOnLayer0 - (sizeOfPixelOnLayer0 - 1),static_cast<int>(sizeBitmap.h) * sizeOfPixelOnLayer0 - (sizeOfPixelOnLayer0 - 1) }')],
 GET+'''int main(){ auto f=WriteTiles({Tile{"C0",0,0,0,40,40,40,40,PixelType::Gray8,1},Tile{"C0",-1,19,0,8,40,4,20,PixelType::Gray8,77}}); auto r=Open(f); auto a=r->CreateSingleChannelPyramidLayerTileAccessor(); auto c=Coord("C0"); ISingleChannelPyramidLayerTileAccessor::Options o; o.Clear(); o.backGroundColor={0,0,0}; ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo p; p.minificationFactor=2; p.pyramidLayerNo=1;
 auto b=Bytes(a->Get(PixelType::Gray8,IntRect{0,0,20,20},&c,p,&o)); for(int y=0;y<10;++y) if(b[y*10+9]!=77) return fail("tile missing in the last column"); return 0; }''')
mk('P12-scene-first','P12','sorting by tile index requested and tiles of one layer stored out of index order in two scenes','painting order is by scene, not by tile index',
 [(S+'SingleChannelPyramidLevelTileAccessor.cpp','''                return mIndex1 < mIndex2;''','''                if (i1.physicalSize.h != i2.physicalSize.h)
                {
                    return i1.physicalSize.h > i2.physicalSize.h;
                }

                return mIndex1 < mIndex2;''')],
 GET+'''int main(){ auto f=WriteTiles({Tile{"C0",0,0,0,8,8,8,8,PixelType::Gray8,10},Tile{"C0",5,0,0,8,9,8,9,PixelType::Gray8,50}}); auto r=Open(f); auto a=r->CreateSingleChannelPyramidLayerTileAccessor(); auto c=Coord("C0"); ISingleChannelPyramidLayerTileAccessor::Options o; o.Clear(); o.sortByM=true; o.backGroundColor={0,0,0}; ISingleChannelPyramidLayerTileAccessor::PyramidLayerInfo p; p.minificationFactor=2; p.pyramidLayerNo=0;
 auto b=Bytes(a->Get(PixelType::Gray8,IntRect{0,0,8,8},&c,p,&o)); for(auto v:b) if(v!=50) return fail("tile index order not honoured"); return 0; }''')
mk('P13-level-two-finer','P13','a document with pyramid where the finer level shows different content, zoom at the coarser level','tiles of the next finer level are painted over the chosen level',
 [(S+'SingleChannelScalingTileAccessor.cpp','startZoom * 1.9f','startZoom * 2.1f')],
 GET+'''int main(){ auto f=WriteTiles({Tile{"C0",0,0,0,16,16,16,16,PixelType::Gray8,1},Tile{"C0",-1,0,0,16,16,8,8,PixelType::Gray8,2},Tile{"C0",-1,0,0,16,16,4,4,PixelType::Gray8,4}}); auto r=Open(f); auto a=r->CreateSingleChannelScalingTileAccessor(); auto c=Coord("C0"); ISingleChannelScalingTileAccessor::Options o; o.Clear(); o.backGroundColor={0,0,0};
 auto b=Bytes(a->Get(PixelType::Gray8,IntRect{0,0,16,16},&c,0.25f,&o)); for(auto v:b) if(v!=4) return fail("finer level used"); return 0; }''')
mk('P13-scene-filter-single','P13','a scene filter of which only one scene meets the rectangle, while tiles of other scenes do as well','tiles of scenes outside of the filter are painted',
 [(S+'SingleChannelScalingTileAccessor.cpp','''    result.subBlocks = this->GetSubSet(roi, planeCoordinate, &allowedScenes);''','''    result.subBlocks = this->GetSubSet(roi, planeCoordinate, allowedScenes.size() == 1 && allowedScenes[0] > 0 ? nullptr : &allowedScenes);''')],
 GET+'''int main(){ auto f=WriteTiles({Tile{"C0S0",5,0,0,8,8,8,8,PixelType::Gray8,11},Tile{"C0S1",1,0,0,8,8,8,8,PixelType::Gray8,22}}); auto r=Open(f); auto a=r->CreateSingleChannelScalingTileAccessor(); auto c=Coord("C0"); ISingleChannelScalingTileAccessor::Options o; o.Clear(); o.backGroundColor={0,0,0}; o.sceneFilter=Utils::IndexSetFromString(L"1");
 auto b=Bytes(a->Get(PixelType::Gray8,IntRect{0,0,8,8},&c,0.5f,&o)); for(auto v:b) if(v==11) return fail("filtered scene painted"); return 0; }''')
mk('P14-visibility-roi','P14','a non-square request with the visibility check where a lower tile shows only in the part outside of the transposed rectangle','the visibility check drops a visible tile',
 [(S+'SingleChannelTileAccessor.cpp','{ xPos, yPos, static_cast<int>(pBm->GetWidth()), static_cast<int>(pBm->GetHeight()) }','{ xPos, yPos, static_cast<int>(pBm->GetHeight()), static_cast<int>(pBm->GetWidth()) }')],
 GET+'''int main(){ auto f=WriteTiles({Tile{"C0",0,0,0,20,4,20,4,PixelType::Gray8,1},Tile{"C0",1,0,0,10,4,10,4,PixelType::Gray8,2}}); auto r=Open(f); auto a=r->CreateSingleChannelTileAccessor(); auto c=Coord("C0"); ISingleChannelTileAccessor::Options o; o.Clear(); o.sortByM=true; o.backGroundColor={0,0,0}; auto x=Bytes(a->Get(PixelType::Gray8,IntRect{0,0,20,4},&c,&o)); o.useVisibilityCheckOptimization=true; auto y=Bytes(a->Get(PixelType::Gray8,IntRect{0,0,20,4},&c,&o)); return x==y?0:fail("image changed by the visibility check"); }''')
mk('P14-covered-too-early','P14','visibility check in a larger image where only a tiny part is left uncovered by the upper tiles','the check stops when (rounded) 100 percent are covered, so a tile visible in the rest is dropped',
 [(S+'SingleChannelAccessorBase.cpp','if (new_covered_pixel_count == total_pixel_count)','if ((new_covered_pixel_count * 100 + total_pixel_count / 2) / total_pixel_count >= 100)')],
 GET+'''int main(){ auto f=WriteTiles({Tile{"C0",0,0,0,30,30,30,30,PixelType::Gray8,1},Tile{"C0",1,0,0,30,29,30,29,PixelType::Gray8,2},Tile{"C0",2,0,29,28,1,28,1,PixelType::Gray8,3}}); auto r=Open(f); auto a=r->CreateSingleChannelTileAccessor(); auto c=Coord("C0"); ISingleChannelTileAccessor::Options o; o.Clear(); o.sortByM=true; o.backGroundColor={0,0,0};
 auto x=Bytes(a->Get(PixelType::Gray8,IntRect{0,0,30,30},&c,&o)); o.useVisibilityCheckOptimization=true; auto y=Bytes(a->Get(PixelType::Gray8,IntRect{0,0,30,30},&c,&o)); return x==y?0:fail("image changed by the visibility check"); }''')
