import sys; sys.path.insert(0,'/verif/tools'); from seed import mk
S='Src/libCZI/'
BMP='''struct B:IBitmapData{ uint32_t w,h; B(uint32_t w,uint32_t h):w(w),h(h){} PixelType GetPixelType()const override{return PixelType::Gray8;} IntSize GetSize()const override{return IntSize{w,h};} BitmapLockInfo Lock()override{BitmapLockInfo i; i.ptrData=i.ptrDataRoi=nullptr; i.stride=0; i.size=0; return i;} void Unlock()override{} int GetLockCount()const override{return 0;} };
struct M:IBitonalBitmapData{ uint32_t w,h; M(uint32_t w,uint32_t h):w(w),h(h){} IntSize GetSize()const override{return IntSize{w,h};} BitonalBitmapLockInfo Lock()override{BitonalBitmapLockInfo i; i.ptrData=nullptr; i.stride=0; i.size=0; return i;} void Unlock()override{} int GetLockCount()const override{return 0;} };
'''
mk('P15-recency-tie','P15','several lookups in a row without an add in between, then pruning','lookups in a row get the same recency, pruning then evicts the wrong item',
 [(S+'subblock_cache.cpp','element->second.lru_value = this->lru_counter_.fetch_add(1);','element->second.lru_value = this->lru_counter_.load();')],
 BMP+'''int main(){ auto c=CreateSubBlockCache(); for(int k=1;k<=3;++k) c->Add(k,{std::make_shared<B>(1,1)}); c->Get(3); c->Get(2); c->Get(1); ISubBlockCacheControl::PruneOptions o; o.maxSubBlockCount=1; c->Prune(o); return c->Get(1).IsValid()?0:fail("the most recently used item was evicted"); }''')
mk('P15-overwrite-mask','P15','an item with a mask is overwritten','the memory of the overwritten mask is still counted',
 [(S+'subblock_cache.cpp','this->cache_size_in_bytes_ -= SubBlockCache::CalculateSizeInBytes(result.first->second.bitmap.get(), result.first->second.mask.get());','this->cache_size_in_bytes_ -= SubBlockCache::CalculateSizeInBytes(result.first->second.bitmap.get());')],
 BMP+'''int main(){ auto c=CreateSubBlockCache(); c->Add(1,{std::make_shared<B>(4,4),std::make_shared<M>(9,4)}); c->Add(1,{std::make_shared<B>(2,2)}); return c->GetStatistics(3).memoryUsage==4?0:fail("memory usage wrong"); }''')
mk('P15-get-unlocked','P15','a lookup concurrent with overwriting or pruning the same subblock','the item is read after the lock was released, so a bitmap and mask of different adds can be paired',
 [(S+'subblock_cache.cpp','''    lock_guard<mutex> lck(this->mutex_);
    const auto element = this->cache_.find(subblock_index);''','''    unique_lock<mutex> lck(this->mutex_);
    const auto element = this->cache_.find(subblock_index);'''),
  (S+'subblock_cache.cpp','''        return { element->second.bitmap, element->second.mask };''','''        lck.unlock();
        return { element->second.bitmap, element->second.mask };''')],
 BMP+'''int main(){ auto c=CreateSubBlockCache(); std::vector<ISubBlockCacheOperation::CacheItem> it; for(int i=0;i<2;++i) it.emplace_back(std::make_shared<B>(1,1),std::make_shared<M>(8,1)); c->Add(0,it[0]); std::atomic<bool> stop{false}; std::atomic<int> bad{0}; std::vector<std::thread> t;
 for(int k=0;k<3;++k) t.emplace_back([&]{ while(!stop){ auto g=c->Get(0); bool ok=false; for(auto& x:it) if(x.bitmap==g.bitmap&&x.mask==g.mask) ok=true; if(!ok) bad=1; } }); t.emplace_back([&]{ unsigned i=0; while(!stop) c->Add(0,it[i++&1]); });
 for(int i=0;i<100&&!bad;++i) std::this_thread::sleep_for(std::chrono::milliseconds(100)); stop=true; for(auto& x:t) x.join(); return bad?fail("bitmap and mask of different items"):0; }''')
SLOW='''static std::atomic<int> gone{0}, bad{0}, inRead{0};
struct Slow:IStream{ std::vector<uint8_t> d; bool slow=false; ~Slow()override{gone=1;} void Read(uint64_t o,void*p,uint64_t s,uint64_t*r)override{ auto dd=d; bool sl=slow; if(sl){ inRead=1; for(int i=0;i<100&&!gone;++i) std::this_thread::sleep_for(std::chrono::milliseconds(10)); if(gone) bad=1; } uint64_t k=o<dd.size()?std::min<uint64_t>(s,dd.size()-o):0; if(k) std::memcpy(p,dd.data()+o,k); if(r)*r=k; } };
'''
mk('P16-attachment-stream','P16','closing the document while an attachment is being read','the stream is destroyed while the read is in progress',
 [(S+'CZIReader.cpp','''        throw logic_error("CCZIReader::ReadAttachment: stream is null (Close was already called for this instance)");
    }

    auto attchmnt = CCZIParse::ReadAttachment(stream_reference.get(), entry.FilePosition, allocateInfo);''','''        throw logic_error("CCZIReader::ReadAttachment: stream is null (Close was already called for this instance)");
    }

    libCZI::IStream* const stream_to_read = stream_reference.get();
    stream_reference.reset();
    auto attchmnt = CCZIParse::ReadAttachment(stream_to_read, entry.FilePosition, allocateInfo);''')],
 SLOW+'''int main(){ auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); Add(w,Tile{"C0",0,0,0,4,4,4,4}); AddAtt(w,1,"a","hello"); w->Close(); auto s=std::make_shared<Slow>(); s->d=f->d; auto r=CreateCZIReader(); r->Open(s); s->slow=true; s.reset();
 std::thread t([&]{ try{ r->ReadAttachment(0); }catch(...){ } }); while(!inRead) std::this_thread::yield(); r->Close(); t.join(); return bad?fail("stream destroyed during a read"):0; }''')
mk('P16-shared-entry','P16','several threads enumerate attachments at the same time','threads see entries of each other',
 [(S+'CZIReader.cpp','''    libCZI::AttachmentInfo ai;
    ai.contentFileType''','''    static libCZI::AttachmentInfo ai;
    ai.contentFileType''')],
 '''int main(){ auto f=std::make_shared<Mem>(); auto w=CreateCZIWriter(); w->Create(f,nullptr); Add(w,Tile{"C0",0,0,0,4,4,4,4}); for(int i=0;i<20;++i) AddAtt(w,i+1,("a_rather_long_attachment_name_"+std::to_string(i)).c_str(),"x"); w->Close(); auto r=Open(f); std::atomic<int> bad{0}; std::vector<std::thread> t;
 for(int k=0;k<4;++k) t.emplace_back([&]{ for(int n=0;n<20000&&!bad;++n) r->EnumerateAttachments([&](int i,const AttachmentInfo& a){ if(a.contentGuid.Data1!=(uint32_t)i+1) bad=1; return true; }); }); for(auto& x:t) x.join(); return bad?fail("entries mixed"):0; }''')
mk('P16-seek-unlocked','P16','concurrent reads through the C-runtime based file stream','seek and read of two threads interleave, data is mixed',
 [(S+'StreamsLib/simplefileinputstream.cpp','''    std::lock_guard<std::mutex> lck(this->request_mutex_);
#if defined(_WIN32)
    int r = _fseeki64(this->fp_, offset, SEEK_SET);''','''    std::unique_lock<std::mutex> lck(this->request_mutex_);
#if defined(_WIN32)
    int r = _fseeki64(this->fp_, offset, SEEK_SET);'''),
  (S+'StreamsLib/simplefileinputstream.cpp','''    const std::uint64_t bytesRead = fread(''','''    lck.unlock();
    const std::uint64_t bytesRead = fread(''')],
 '''#include "libCZI_StreamsLib.h"
int main(){ std::vector<Tile> ts; for(int i=0;i<8;++i) ts.push_back(Tile{"C0",i,i*64,0,64,64,64,64,PixelType::Gray8,(uint8_t)(i+1)}); auto f=WriteTiles(ts); FILE* o=fopen("x.czi","wb"); fwrite(f->d.data(),1,f->d.size(),o); fclose(o); StreamsFactory::CreateStreamInfo ci; ci.class_name="c_runtime_file_inputstream"; auto s=StreamsFactory::CreateStream(ci,std::string("x.czi")); auto r=Open(s); std::atomic<int> bad{0}; std::vector<std::thread> t;
 for(int k=0;k<4;++k) t.emplace_back([&,k]{ for(int n=0;n<5000&&!bad;++n){ try{ int i=(n*5+k)%8; size_t z=0; auto p=r->ReadSubBlock(i)->GetRawData(ISubBlock::Data,&z); if(z!=4096||((const uint8_t*)p.get())[0]!=i+1) bad=1; }catch(...){ bad=1; } } }); for(auto& x:t) x.join(); return bad?fail("data mixed"):0; }''')
