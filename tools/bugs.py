# Planted bugs: source text from which mkbug.py makes /verif/seeded/<id>/.  Not read by any check.
PRE = r'''#include "OnexAPI.hpp"
#include "GroupableTimeSeriesSet.hpp"
#include "GlobalGroupSpace.hpp"
#include "LocalLengthGroupSpace.hpp"
#include "Group.hpp"
#include "TimeSeries.hpp"
#include "TimeSeriesSet.hpp"
#include "Exception.hpp"
#include "distance/Distance.hpp"
#include <cstdio>
#include <cmath>
#include <climits>
#include <fstream>
#include <sstream>
#include <string>
#include <vector>
#include <set>
#include <map>
#include <algorithm>
#include <functional>
using namespace onex;
#define CHECK(c) do { if (!(c)) { std::fprintf(stderr, "FAILED line %d: %s\n", __LINE__, #c); return 1; } } while (0)
static void put(const char* p, const std::string& s) { std::ofstream f(p); f << s; }
static std::string get(const char* p) { std::ifstream f(p); std::stringstream s; s << f.rdbuf(); return s.str(); }
static bool fails(std::function<void()> f) { try { f(); } catch (OnexException&) { return true; } return false; }
'''
BUGS = {}
def bug(id, prop, needs, breaks, edits, demo=None, **k):
    d = dict(prop=prop, needs=needs, breaks=breaks, edits=edits)
    if demo is not None: d['demo'] = demo
    d.update(k)
    BUGS[id] = d

S='src/TimeSeriesSet.cpp'; T='src/TimeSeries.cpp'; D='src/distance/Distance.cpp'; G='src/Group.cpp'
L='src/LocalLengthGroupSpace.cpp'; GG='src/GlobalGroupSpace.cpp'; GS='src/GroupableTimeSeriesSet.cpp'
A='src/OnexAPI.cpp'; TH='src/TimeSeries.hpp'; TR='src/lib/trillionDTW.cpp'; C='cli/OnexCLI.cpp'

bug('C01-eof','C01','a data file whose last line has no newline',
 'the last row of such a file is silently dropped',
 [(S,'for (lineCount = 0; std::getline(f, line); ++lineCount);','while (std::getline(f, line) && !f.eof()) ++lineCount;')],
 r'''int main(){ put("d","1 2\n3 4\n5 6"); OnexAPI a; CHECK(a.loadDataset("d",0,0," ").itemCount==3); return 0; }''')

bug('C01-cap','C01','a row limit together with a start column and more rows than columns left over',
 'the row offset uses the full row length for the limit, so a limited load stops early',
 [(S,'maxNumRow = std::min(maxNumRow, countNumberOfLines(f));','maxNumRow = std::min(maxNumRow, countNumberOfLines(f) - (startCol > maxNumRow));')],
 r'''int main(){ put("d","9 9 9 1 2\n9 9 9 3 4\n"); TimeSeriesSet s; s.loadData("d",2,3," "); CHECK(s.getItemCount()==2); CHECK(s.getTimeSeries(1)[1]==4); return 0; }''')


bug('C02-skipcol','C02','a ragged row in which only the discarded leading columns are missing... or the row is longer by less than the start column',
 'rows are compared in length only up to the start column',
 [(S,'else if (length != std::distance(tokens.begin(), tokens.end()))','else if (std::abs(length - (int)std::distance(tokens.begin(), tokens.end())) > (startCol > 2 ? 1 : 0))')],
 r"""int main(){ put("d","1 2 3 4 5\n1 2 3 4\n"); OnexAPI a; CHECK(fails([&]{a.loadDataset("d",0,3," ");})); CHECK(a.getDatasetCount()==0); return 0; }""")
BUGS['C02-skipcol']['needs']='a row shorter by one than the first, loaded with a start column of three or more'
BUGS['C02-skipcol']['breaks']='such a ragged file is accepted'

bug('C03-fixed','C03','values of small magnitude',
 'values are written in fixed notation and lose their significant digits',
 [(S,'f << data[i * itemLength + j] << separator;','f << std::fixed << data[i * itemLength + j] << separator;')],
 r'''int main(){ put("d","1.2345678901234567e-9 2\n"); TimeSeriesSet s; s.loadData("d",0,0," "); s.saveData("e",' '); TimeSeriesSet t; t.loadData("e",0,0," "); CHECK(t.getTimeSeries(0)[0]==s.getTimeSeries(0)[0]); return 0; }''')

bug('C04-first','C04','series of odd length whose overall maximum is the very first point',
 'the maximum is missed, so normalized values exceed 1',
 [(S,'''      if (data[ts * this->itemLength] > MAX)
''','''      else if (data[ts * this->itemLength] > MAX)
''')],
 r'''int main(){ put("d","9 1 2\n3 4 5\n"); TimeSeriesSet s; s.loadData("d",0,0," "); auto p=s.normalize(); CHECK(p.second==9); CHECK(s.getTimeSeries(0)[0]==1); return 0; }''')

bug('C04-eps','C04','a dataset whose values differ by very little',
 'datasets with a small range are flattened to zero instead of being scaled to [0,1]',
 [(S,'if (diff == 0.0)','if (diff < 1e-9)')],
 r'''int main(){ put("d","1e-12 3e-12\n2e-12 1e-12\n"); TimeSeriesSet s; s.loadData("d",0,0," "); s.normalize(); CHECK(s.getTimeSeries(0)[1]==1); return 0; }''')

bug('C05-ovf','C05','a block size near the largest int',
 'the output length overflows to zero or below and the reduction corrupts memory or yields no points',
 [(S,'return (srcLength - 1) / n + 1;','return (srcLength + n - 1) / n;')],
 r'''int main(){ put("d","1 2 3\n4 5 6\n"); TimeSeriesSet s; s.loadData("d",0,0," "); try { s.PAA(INT_MAX);} catch (std::exception&) { return 1; } CHECK(s.getItemLength()==1); CHECK(s.getTimeSeries(1)[0]==5); return 0; }''')


bug('C07-ge','C07','a dropout bound equal to the distance',
 'a value exactly at the bound is reported as infinite',
 [(D,'    if (total > dropout)','    if (total >= dropout)')],
 r'''int main(){ double x[2]={0,0}, y[2]={3,3}; TimeSeries a(x,2), b(y,2); CHECK(pairwiseDistance(a,b,3)==3); return 0; }''')

bug('C08-inorm','C08','two sequences of different length and a dropout bound near the distance',
 'the early-abandon limit is scaled by the first sequence only, so an in-bound distance is reported infinite',
 [(D,'return pow(dropout * 2 * std::max(t_1.getLength(), t_2.getLength()), 2);','return pow(dropout * 2 * t_1.getLength(), 2);')],
 r'''int main(){ setWarpingBandRatio(1.0); double x[2]={0,4}, y[4]={1,1,1,1}; TimeSeries a(x,2), b(y,4); double d=warpedDistance(a,b,INFINITY); CHECK(std::isfinite(d)); CHECK(warpedDistance(a,b,d*1.0001)==d); return 0; }''')



bug('C10-stale','C10','asking one sequence for the envelope of a wide band and then of a narrower one',
 'the cached envelope of the wider band is returned for the narrower one',
 [(T,'''const data_t* TimeSeries::getKeoghUpper(int warpingBand) const
{
  if (!keoghCacheValid || warpingBand != cachedWarpingBand) {''','''const data_t* TimeSeries::getKeoghUpper(int warpingBand) const
{
  if (!keoghCacheValid || warpingBand > cachedWarpingBand) {''')],
 r'''int main(){ double x[5]={0,1,9,1,0}; TimeSeries a(x,5); a.getKeoghUpper(2); CHECK(a.getKeoghUpper(0)[0]==0); return 0; }''')

bug('C11-const','C11','a subsequence equal to the current representative of the previous group search with an infinite threshold',
 'subsequences of full length starting at 0 are not searched when the dataset is constant',
 [(L,'for (int start = 0; start < this->subTimeSeriesCount; start++)','for (int start = 0; start < std::min(this->subTimeSeriesCount, 1 << 12); start++)')],
 r'''int main(){ std::string s; for(int i=0;i<4200;i++) s+= i%2? "1 ":"0 "; put("d",s+"\n"); TimeSeriesSet t; t.loadData("d",0,0," "); LocalLengthGroupSpace g(t,2); g.generateGroups(getDistance("euclidean"),0.1); int n=0; for(int i=0;i<g.getNumberOfGroups();i++) n+=g.getGroup(i)->getCount(); CHECK(n==4199); return 0; }''')
BUGS['C11-const']['needs']='a dataset with series longer than 4096 points'
BUGS['C11-const']['breaks']='subsequences starting beyond position 4095 belong to no group'

bug('C12-tie','C12','a subsequence equally near to two representatives',
 'ties go to the later group instead of the earlier one',
 [(L,'        if (dist < bestSoFar)\n        {\n          bestSoFar = dist;\n          bestSoFarIndex = i;','        if (dist <= bestSoFar && dist <= threshold)\n        {\n          bestSoFar = dist;\n          bestSoFarIndex = i;')],
 r'''int main(){ put("d","0 0\n2 2\n1 1\n"); TimeSeriesSet t; t.loadData("d",0,0," "); LocalLengthGroupSpace g(t,2); g.generateGroups(getDistance("euclidean"),2); CHECK(g.getNumberOfGroups()==2); CHECK(g.getGroup(0)->getCount()==2); return 0; }''')

bug('C12-bound','C12','a subsequence at exactly half the threshold from the nearest representative',
 'such a subsequence founds a new group instead of joining',
 [(L,'data_t bestSoFar = INF;','data_t bestSoFar = threshold / 2;')],
 r'''int main(){ put("d","0 0\n1 1\n"); TimeSeriesSet t; t.loadData("d",0,0," "); LocalLengthGroupSpace g(t,2); CHECK(g.generateGroups(getDistance("euclidean"),2)==1); return 0; }''')


bug('C14-break','C14','a query whose own length matches worse than a length two or more away',
 'the search over lengths stops at the first length that brings no improvement',
 [(GG,'''    if (candidate.second < bestSoFarDist)
    {
      bestSoFarGroup = candidate.first;
      bestSoFarDist = candidate.second;
    }
  }
  if''','''    if (candidate.second >= bestSoFarDist)
    {
      // farther lengths are not going to be better
      if (bestSoFarGroup != nullptr) break;
      continue;
    }
    bestSoFarGroup = candidate.first;
    bestSoFarDist = candidate.second;
  }
  if''')],
 r'''int main(){ setWarpingBandRatio(0.9); put("d","0 5 0 5 0 9 9 9\n"); put("q","0 9 9 9\n0 0 0 9\n9 9 9 0\n0 5 9 9\n5 0 0 9\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.loadDataset("q",0,0," "); a.groupDataset(0,0); 
 TimeSeriesSet d,q; d.loadData("d",0,0," "); q.loadData("q",0,0," ");
 for(int i=0;i<5;i++) for(int s=0;s<3;s++) for(int e=s+2;e<=4;e++){ double best=INFINITY; for(int x=0;x<8;x++) for(int y=x+2;y<=8;y++) best=std::min(best,warpedDistance(q.getTimeSeries(i,s,e),d.getTimeSeries(0,x,y),INFINITY)); CHECK(a.getBestMatch(0,1,i,s,e).dist==best); } return 0; }''')

bug('C15-len1','C15','a query of one point under a band ratio of at least one half',
 'a one-point query is searched instead of being rejected',
 [(GG,'if (query.getLength() <= 1) {','if (query.getLength() < 1) {')],
 r'''int main(){ setWarpingBandRatio(1.0); put("d","0 5 0 5\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.groupDataset(0,0.1); CHECK(fails([&]{a.getBestMatch(0,0,0,1,2);})); return 0; }''')

bug('C16-dist','C16','groups made with a distance other than euclidean and saved again after loading',
 'the distance recorded in the file is replaced by euclidean when loaded groups are saved again',
 [(GG,'this->loadDistance(distance);','this->loadDistance("euclidean");')],
 r'''int main(){ put("d","0 5 0 5\n1 2 3 4\n"); GroupableTimeSeriesSet a; a.loadData("d",0,0," "); a.groupAllLengths("euclidean_dtw",0.5); a.saveGroups("g",false); GroupableTimeSeriesSet b; b.loadData("d",0,0," "); b.loadGroups("g"); b.saveGroups("h",false); CHECK(get("h").find("euclidean_dtw")!=std::string::npos); return 0; }''')

bug('C17-ver','C17','a group file of an older format version',
 'files of an older version are accepted',
 [(GS,'if (version != GROUP_FILE_VERSION)','if (version > GROUP_FILE_VERSION)')],
 r'''int main(){ put("d","0 5 0 5\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.groupDataset(0,0.1); a.saveGroup(0,"g",false); std::string s=get("g"); int v=atoi(s.c_str()); put("h", std::to_string(v-1)+s.substr(s.find(' '))); CHECK(fails([&]{a.loadGroup(0,"h");})); return 0; }''')

bug('C18-last','C18','two or more freed slots when a dataset is loaded',
 'the largest free id is handed out instead of the smallest',
 [(A,'''      nextIndex = i;
      break;
''','''      nextIndex = i;
''')],
 r'''int main(){ put("d","0 5\n"); OnexAPI a; for(int i=0;i<4;i++) a.loadDataset("d",0,0," "); a.unloadDataset(0); a.unloadDataset(1); CHECK(a.loadDataset("d",0,0," ").id==0); return 0; }''')

bug('C18-count','C18','unloading by id after unloading everything',
 'the size of the id table shrinks only by one although several trailing slots are free',
 [(A,'if (index == loadedDatasets.size() - 1)','if (index == this->datasetCount - 1)')],
 r'''int main(){ put("d","0 5\n"); put("e","1 2 3\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.loadDataset("d",0,0," "); a.loadDataset("e",0,0," "); a.unloadDataset(0); a.unloadDataset(1); CHECK(a.getDatasetCount()==1); CHECK(a.getAllDatasetInfo().size()==1); CHECK(a.getDatasetInfo(2).itemLength==3); return 0; }''')
BUGS['C18-count']['needs']='unloading a dataset that is not the last while a lower slot is free'
BUGS['C18-count']['breaks']='another dataset disappears from the registry'

bug('C19-const','C19','normalizing an already grouped constant dataset',
 'the groups made before normalization survive it',
 [(S,'  // do not divide by zero\n  if (diff == 0.0)\n  {','  // do not divide by zero\n  if (diff == 0.0 && MAX == 0)\n  {\n    // already normalized\n    normalized = true;\n    return std::make_pair(MIN, MAX);\n  }\n  else if (diff == 0.0)\n  {')],
 r'''int main(){ put("d","0 0 0\n0 0 0\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.groupDataset(0,0.1); a.normalizeDataset(0); CHECK(!a.getDatasetInfo(0).isGrouped); return 0; }''')

bug('C20-size','C20','saveGroup with an explicit 0 as the last argument',
 'an explicit 0 saves group sizes only',
 [(C,'gOnexAPI.saveGroup(index, args[2], groupSizeOnly);','gOnexAPI.saveGroup(index, args[2], groupSizeOnly || args.size() == 4);')],
 demo_sh=r'''#!/bin/bash
repo=$PWD
mkdir -p /tmp/onex-demo-@ID@ && cd /tmp/onex-demo-@ID@ || exit 3
printf '1 2 3\n4 5 7\n' > d
printf 'load d\ngroup 0 0.5\nsaveGroup 0 g\nsaveGroup 0 h 0\nquit\n' | TERM=dumb INPUTRC=/dev/null timeout 60 "$repo/_build/onex" > out.txt 2>&1
cmp g h; rc=$?
cd "$repo"
rm -rf /tmp/onex-demo-@ID@
exit $rc
''')

bug('C20-range','C20','a number in a command that does not fit its type',
 'an out-of-range number ends the program',
 [(C,'catch (logic_error& e)','catch (invalid_argument& e)')],
 demo_sh=r'''#!/bin/bash
repo=$PWD
mkdir -p /tmp/onex-demo-@ID@ && cd /tmp/onex-demo-@ID@ || exit 3
printf '1 2 3\n4 5 7\n' > d
printf 'load d\nunload 99999999999999\nlist dataset\nquit\n' | TERM=dumb INPUTRC=/dev/null timeout 60 "$repo/_build/onex" > out.txt 2>&1
grep -q 'There are 1 loaded' out.txt; rc=$?
cd "$repo"
rm -rf /tmp/onex-demo-@ID@
exit $rc
''')

bug('C21-sputn','C21','a device that stays full for one write only, or fails at a buffer boundary',
 'rows are pushed into the stream buffer directly, so a failed write is not noticed',
 [(S,'''      f << data[i * itemLength + j] << separator;
    }
    f << std::endl;''','''      row << data[i * itemLength + j] << separator;
    }
    row << std::endl;
    const string text = row.str();
    f.rdbuf()->sputn(text.data(), text.size());
    f.rdbuf()->pubsync();'''),
  (S,'''  for (int i = 0; i < itemCount; i++) {
    for (int j = 0; j < itemLength; j++) {''','''  for (int i = 0; i < itemCount; i++) {
    std::ostringstream row;
    row.precision(f.precision());
    for (int j = 0; j < itemLength; j++) {'''),
  (S,'#include <cstring>\n','#include <cstring>\n#include <sstream>\n')],
 r'''#include <sys/resource.h>
#include <signal.h>
int main(){ std::string s; for(int i=0;i<3;i++){ for(int j=0;j<900;j++) s+="0.123456789 "; s+="\n";} put("d",s); OnexAPI a; a.loadDataset("d",0,0," "); signal(SIGXFSZ,SIG_IGN); 
 bool bad=false; for (int lim=100; lim<30000; lim+=1000) { rlimit r={(rlim_t)lim,RLIM_INFINITY}; setrlimit(RLIMIT_FSIZE,&r); bool f=fails([&]{a.saveDataset(0,"o",' ');}); r.rlim_cur=RLIM_INFINITY; setrlimit(RLIMIT_FSIZE,&r); if(!f){ TimeSeriesSet t; try { t.loadData("o",0,0," "); if (t.getItemCount()!=3) bad=true; } catch (OnexException&) { bad=true; } } } CHECK(!bad); return 0; }''')

bug('C22-leak','C22','repeatedly unloading a dataset that is not the last one',
 'a dataset unloaded while a later one exists is never released',
 [(A,'  delete loadedDatasets[index];\n  loadedDatasets[index] = nullptr;\n  if (index == loadedDatasets.size() - 1)\n  {\n    loadedDatasets.pop_back();','  if (index == loadedDatasets.size() - 1)\n  {\n    delete loadedDatasets[index];\n    loadedDatasets.pop_back();\n  }\n  else\n  {\n    loadedDatasets[index] = nullptr;')],
 r"""#include <malloc.h>
int main(){ std::string s="1 2"; for(int i=0;i<2000;i++) s+=" 3"; put("d",s+"\n"); OnexAPI a; auto f=[&]{a.loadDataset("d",0,0," "); a.loadDataset("d",0,0," "); a.unloadDataset(0); a.unloadDataset(1); }; for(int i=0;i<50;i++) f(); size_t b=mallinfo2().uordblks; for(int i=0;i<500;i++) f(); CHECK(mallinfo2().uordblks<b+20000); return 0; }""")

bug('C23-le','C23','two candidates that are equal in every respect',
 'the ordering is not strict: a candidate compares less than itself',
 [(TH,'return data.getLength() < rhs.data.getLength();','return data.getLength() <= rhs.data.getLength();')],
 r'''int main(){ double x[4]={0}; candidate_time_series_t a(TimeSeries(x,0,0,4),1), b(TimeSeries(x,0,0,4),1); CHECK(!(a<b)); CHECK(!(b<a)); return 0; }''')

bug('C24-loc','C24','a nearest window that lies beyond the first 100000 points of the file',
 'the reported location is shifted for later chunks',
 [(TR,'loc = (it)*(EPOCH-m+1) + i-m+1;','loc = (it)*EPOCH + i-m+1;')],
 r'''#include "lib/trillionDTW.h"
#include <sstream>
int main(){ std::ofstream d("d"); unsigned s=1; std::vector<double> v; for(int i=0;i<120000;i++){ s=s*1103515245+12345; v.push_back((s>>16)%1000); } double q[8]={0,5000,100,-4000,3000,0,2500,-100}; for(int i=0;i<8;i++) v[110000+i]=q[i]; for(double x:v) d<<x<<" "; d.close(); std::ofstream qf("q"); for(double x:q) qf<<x<<" "; qf.close();
 std::ostringstream o; auto b=std::cout.rdbuf(o.rdbuf()); calculate("d","q",8,1); std::cout.rdbuf(b); CHECK(o.str().find("Location : 110000\n")!=std::string::npos); return 0; }''')

bug('C24-abandon','C24','a nearest window reached after a worse one, with early abandoning',
 'the early abandoning adds a bound for a point already accounted for, and drops the true nearest window',
 [(TR,'if (i+r < m-1 && min_cost + cb[i+r+1] >= bsf)\n        {   free(cost);\n            free(cost_prev);\n            return min_cost + cb[i+r+1];','if (i+r < m-1 && min_cost + cb[i] >= bsf)\n        {   free(cost);\n            free(cost_prev);\n            return min_cost + cb[i];')],
 r'''#include "lib/trillionDTW.h"
#include <sstream>
typedef double R;
static R ref(std::vector<R> a,std::vector<R> b,int r){int m=a.size();std::vector<std::vector<R>> c(m,std::vector<R>(m,1e30));for(int i=0;i<m;i++)for(int j=std::max(0,i-r);j<=std::min(m-1,i+r);j++){R p=1e30;if(!i&&!j)p=0;if(i)p=std::min(p,c[i-1][j]);if(j)p=std::min(p,c[i][j-1]);if(i&&j)p=std::min(p,c[i-1][j-1]);c[i][j]=p+(a[i]-b[j])*(a[i]-b[j]);}return c[m-1][m-1];}
static void zn(std::vector<R>&v){R s=0,q=0;for(R x:v){s+=x;q+=x*x;}s/=v.size();q=std::sqrt(q/v.size()-s*s);for(R&x:v)x=(x-s)/q;}
int main(){ unsigned s=7; auto rnd=[&]{s=s*1103515245+12345;return (R)((s>>16)%1000)/100;}; for(int t=0;t<60;t++){int m=12;std::vector<R>d,q;for(int i=0;i<300;i++)d.push_back(rnd());for(int i=0;i<m;i++)q.push_back(rnd());
 {std::ofstream f("d");for(R x:d)f<<x<<" ";std::ofstream g("q");for(R x:q)g<<x<<" ";}
 zn(q);R best=1e30;for(int i=0;i+m<=300;i++){std::vector<R>w(d.begin()+i,d.begin()+i+m);zn(w);best=std::min(best,ref(w,q,2));}
 std::ostringstream o;auto b=std::cout.rdbuf(o.rdbuf());calculate("d","q",m,2);std::cout.rdbuf(b);std::string x=o.str();R g=atof(x.c_str()+x.find("Distance : ")+11);CHECK(std::fabs(g-std::sqrt(best))<1e-3*g);}return 0;}''')

bug('C25-memcpy','C25','the single-precision build copying an owning sequence',
 'copying moves twice as many bytes as the sequence holds and overruns both buffers',
 [(TH,'memcpy(this->data, other.data, length * sizeof(data_t));','memcpy(this->data, other.data, length * sizeof(double));')],
 r'''int main(){ TimeSeries a(50); for(int i=0;i<50;i++) a[i]=i; TimeSeries b(a); for(int i=0;i<50;i++) CHECK(b[i]==i); return 0; }''',
 conf='#define SINGLE_PRECISION', flags='-fsanitize=address')

bug('C26-static','C26','changing the warping band ratio after a distance was computed for that length',
 'the band size of a length is remembered across changes of the ratio',
 [(D,'int bandSize = floor(length * warpingBandRatio);','''// lengths repeat a lot while matching
  static int lastLength = -1;
  static double lastRatio = -1;
  static int bandSize = 0;
  if (length != lastLength || std::abs(warpingBandRatio - lastRatio) > 0.01) {
    lastLength = length;
    lastRatio = warpingBandRatio;
    bandSize = floor(length * warpingBandRatio);
  }''')],
 r'''int main(){ setWarpingBandRatio(0.0999); int a=calculateWarpingBandSize(100); CHECK(a==9); setWarpingBandRatio(0.1); CHECK(calculateWarpingBandSize(100)==10); return 0; }''')



# ---- second round
CLI = r'''#!/bin/bash
repo=$PWD
mkdir -p /tmp/onex-demo-@ID@ && cd /tmp/onex-demo-@ID@ || exit 3
%s
cd "$repo"
rm -rf /tmp/onex-demo-@ID@
exit $rc
'''
RUN = 'TERM=dumb INPUTRC=/dev/null timeout 60 "$repo/_build/onex" > out.txt 2>&1'

bug('C03-noise','C03','values closer to zero than 1e-12',
 'tiny values are saved as zero',
 [(S,'f << data[i * itemLength + j] << separator;','''const data_t value = data[i * itemLength + j];
      f << (std::abs(value) < EPS ? 0 : value) << separator;''')],
 r'''int main(){ put("d","1.5e-13 2\n"); TimeSeriesSet s; s.loadData("d",0,0," "); s.saveData("e",' '); TimeSeriesSet t; t.loadData("e",0,0," "); CHECK(t.getTimeSeries(0)[0]==1.5e-13); return 0; }''')
bug('C04-twice','C04','normalizing, then PAA, then normalizing again',
 'the second normalization is skipped although the values no longer span [0,1]',
 [(S,'''  // auto minAndMax = std::minmax(this->data);
''','''  if (this->normalized)
  {
    return std::make_pair((data_t)0, (data_t)1);
  }
''')],
 r'''int main(){ put("d","0 10 4 6\n"); TimeSeriesSet s; s.loadData("d",0,0," "); s.normalize(); s.PAA(2); s.normalize(); double a=s.getTimeSeries(0)[0],b=s.getTimeSeries(0)[1]; CHECK((a==0&&b==0)||std::fabs(a-b)==1); put("e","0 10 2 4\n"); s.loadData("e",0,0," "); s.normalize(); s.PAA(2); s.normalize(); CHECK(s.getTimeSeries(0)[0]==1); return 0; }''')
bug('C05-float','C05','values that need more than single precision',
 'block sums are accumulated in single precision',
 [(S,'''void doPAA(const data_t* source, data_t* dest, int srcLength, int n)
{
  data_t sum = 0;''','''void doPAA(const data_t* source, data_t* dest, int srcLength, int n)
{
  float sum = 0;''')],
 r'''int main(){ put("d","16777216 1 16777216 1\n"); TimeSeriesSet s; s.loadData("d",0,0," "); s.PAA(2); CHECK(s.getTimeSeries(0)[0]==8388608.5); return 0; }''')
bug('C06-single','C06','a range of a single point',
 'one-point ranges are rejected',
 [(S,'if (start < 0 || start >= end || end > this->itemLength)','if (start < 0 || start + 1 >= end || end > this->itemLength)')],
 r'''int main(){ put("d","1 2 3\n"); TimeSeriesSet s; s.loadData("d",0,0," "); try { CHECK(s.getTimeSeries(0,1,2)[0]==2); } catch (OnexException&) { return 1; } return 0; }''')
bug('C06-idx','C06','reading the point just past the end of a constant sequence',
 'index == length is accepted for reading',
 [(T,'''  if (idx < 0 || idx >= this->length) {
    throw OnexException("Data point index is out of range");
  }
  return this->data[start + idx];
}

TimeSeries& TimeSeries::operator+=''','''  if (idx < 0 || idx > this->length) {
    throw OnexException("Data point index is out of range");
  }
  return this->data[start + idx];
}

TimeSeries& TimeSeries::operator+=''')],
 r'''int main(){ put("d","1 2 3\n4 5 6\n"); TimeSeriesSet s; s.loadData("d",0,0," "); const TimeSeries t=s.getTimeSeries(0); CHECK(fails([&]{ t[3]; })); return 0; }''')
bug('C08-col0','C08','a dropout bound just above the distance, with the best alignment staying in the first column',
 'the first column is left out of the early-abandoning minimum, so an in-bound distance becomes infinite',
 [(D,'''        bestSoFar = min(bestSoFar, cost[i][j]);
        continue;''','''        // already calculated
        continue;''')],
 r'''int main(){ setWarpingBandRatio(1); double x[4]={0,0,0,9}, y[4]={0,9,9,9}; TimeSeries a(x,4),b(y,4); double d=warpedDistance(a,b,INFINITY); CHECK(warpedDistance(a,b,d+0.1)==d); return 0; }''')
bug('C09-ge','C09','a dropout bound exactly equal to the lower bound and to the distance',
 'the cascade prunes a distance that equals the bound',
 [(D,'''  data_t lb = crossKeoghLowerBound(a, b, dropout);
  if (lb > dropout) {''','''  data_t lb = crossKeoghLowerBound(a, b, dropout);
  if (lb >= dropout) {''')],
 r'''int main(){ setWarpingBandRatio(0.1); double x[2]={0,0}, y[2]={0,4}; TimeSeries a(x,2), b(y,2); CHECK(cascadeDistance(a,b,1)==1); CHECK(cascadeDistance(a,a,0)==0); return 0; }''')
bug('C10-add','C10','adding a longer sequence to a shorter one',
 'the surplus points are ignored instead of the addition being rejected',
 [(T,'if (other.getLength() != this->length)','if (other.getLength() < this->length)')],
 r'''int main(){ TimeSeries a(3), b(4); CHECK(fails([&]{ a+=b; })); CHECK(fails([&]{ b+=a; })); return 0; }''')
bug('C10-self','C10','assigning one owning sequence to another of the same length through a moved temporary, then changing it',
 'the buffer is taken over from a live sequence when the lengths agree',
 [(T,'''  if (other.isOwnerOfData)
  {
    this->data = new data_t[length];
    memcpy(this->data, other.data, length * sizeof(data_t));
  }
  else {
    this->data = other.data;
  }
''','''  if (other.isOwnerOfData && length > 0)
  {
    this->data = new data_t[length];
    memcpy(this->data, other.data, (length - 1) * sizeof(data_t));
    this->data[length - 1] = other.data[end - 1 - (index != 0)];
  }
  else {
    this->data = other.data;
  }
''')],
 r'''int main(){ TimeSeries a(3); a[0]=1;a[1]=2;a[2]=3; TimeSeries b(2); b=a; CHECK(b[2]==3); return 0; }''')
del BUGS['C10-self']
bug('C11-same','C11','grouping again by another distance with the same threshold',
 'the previous groups are kept and their number reported',
 [(GS,'''  // clear old groups
  reset();
''','''  if (this->isGrouped() && this->threshold == threshold)
  {
    // nothing changed since the last time
    return this->groupCount;
  }

  // clear old groups
  reset();
'''),(GS,'''  this->threshold = threshold;
  return cntGroups;''','''  this->threshold = threshold;
  this->groupCount = cntGroups;
  return cntGroups;'''),('src/GroupableTimeSeriesSet.hpp','  data_t threshold;','  data_t threshold;\n  int groupCount = 0;')],
 r'''int main(){ put("d","0 5 0 5 1\n1 2 3 4 0\n"); setWarpingBandRatio(0.5); GroupableTimeSeriesSet a,b; a.loadData("d",0,0," "); b.loadData("d",0,0," "); int n=b.groupAllLengths("euclidean_dtw",0.5); a.groupAllLengths("euclidean",0.5); CHECK(a.groupAllLengths("euclidean_dtw",0.5)==n); a.saveGroups("g",false); CHECK(get("g").find("_dtw")!=std::string::npos); return 0; }''', also=['C19'])
bug('C12-float','C12','a distance within single-precision rounding of half the threshold',
 'distances to representatives are compared in single precision',
 [(L,'data_t dist = this->groups[i]->distanceFromCentroid(query, pairwiseDistance, bestSoFar);','float dist = this->groups[i]->distanceFromCentroid(query, pairwiseDistance, bestSoFar);')],
 r'''int main(){ put("d","0 0\n1.00000001 1.00000001\n"); TimeSeriesSet t; t.loadData("d",0,0," "); LocalLengthGroupSpace g(t,2); CHECK(g.generateGroups(getDistance("euclidean"),2)==2); return 0; }''')
bug('C13-rep','C13','groups loaded for a dataset whose values differ from those they were made from',
 'the distance of the representative is reported instead of the one of the match when it is smaller',
 [(GG,'  return bestSoFarGroup->getBestMatch(query, this->warpedDistance);','''  candidate_time_series_t best = bestSoFarGroup->getBestMatch(query, this->warpedDistance);
  // the match is at least as good as the representative of its group
  best.dist = min(best.dist, bestSoFarDist);
  return best;''')],
 r'''int main(){ put("d","0 5 0 5\n"); put("e","9 9 9 9\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.loadDataset("e",0,0," "); a.groupDataset(0,0.1); a.saveGroup(0,"g",false); a.loadGroup(1,"g"); auto m=a.getBestMatch(1,0,0); CHECK(m.dist>0.5); return 0; }''')
bug('C14-eps','C14','distances that differ by less than 1e-12',
 'a better representative is ignored when it improves by less than 1e-12',
 [(L,'''    if (dist < bestSoFarDist) {
      bestSoFarDist = dist;
      bestSoFarGroup = groups[i];''','''    if (bestSoFarGroup == nullptr ? dist < bestSoFarDist : bestSoFarDist - dist > EPS) {
      bestSoFarDist = dist;
      bestSoFarGroup = groups[i];''')],
 r'''int main(){ put("d","9e-13 9e-13\n1e-13 1e-13\n"); put("q","0 0\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.loadDataset("q",0,0," "); a.groupDataset(0,0); CHECK(a.getBestMatch(0,1,0).data.getIndex()==1); return 0; }''')
bug('C16-thr','C16','saving groups again after loading them',
 'the threshold of loaded groups is not kept',
 [(GS,'''    reset();
    this->threshold = threshold;''','''    reset();''')],
 r'''int main(){ put("d","0 5 0 5\n"); GroupableTimeSeriesSet a,b; a.loadData("d",0,0," "); a.groupAllLengths("euclidean",0.7); a.saveGroups("g",false); b.loadData("d",0,0," "); b.groupAllLengths("euclidean",3); b.loadGroups("g"); b.saveGroups("h",false); std::stringstream s(get("h")); double v,t; s>>v>>t; CHECK(t==0.7); return 0; }''')
bug('C16-sizes','C16','a size-only file with groups of different sizes',
 'sizes are written in the order of size instead of the order of the groups',
 [(L,'''    for (unsigned int i = 0; i < groups.size(); i++) 
    {
      fout << groups[i]->getCount() << " ";
    }''','''    vector<int> sizes;
    for (unsigned int i = 0; i < groups.size(); i++) 
    {
      sizes.push_back(groups[i]->getCount());
    }
    std::sort(sizes.rbegin(), sizes.rend());
    for (int size : sizes)
    {
      fout << size << " ";
    }'''),(L,'using std::cout;','using std::cout;\nusing std::vector;')],
 r'''int main(){ put("d","0 0\n5 5\n5 5\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.groupDataset(0,0.1); a.saveGroup(0,"g",true); CHECK(get("g").find("1 2 ")!=std::string::npos); return 0; }''')
bug('C17-reset','C17','a rejected group file loaded into a grouped dataset',
 'the dataset loses the groups it had',
 [(GS,'''    reset();
    this->threshold = threshold;''','''    this->threshold = threshold;'''),(GS,'''    cout << "Saved groups are compatible with the dataset" << endl;''','''    cout << "Saved groups are compatible with the dataset" << endl;
    reset();''')],
 r'''int main(){ put("d","0 5 0 5\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.groupDataset(0,0.1); a.saveGroup(0,"g",true); CHECK(fails([&]{ a.loadGroup(0,"g"); })); CHECK(a.getDatasetInfo(0).isGrouped); return 0; }''')
bug('C18-list','C18','listing while a lower id is free',
 'the listing leaves out the datasets with the largest ids',
 [(A,'''  vector<dataset_info_t> info;
  for (unsigned int i = 0; i < this->loadedDatasets.size(); i++)''','''  vector<dataset_info_t> info;
  for (int i = 0; i < this->datasetCount; i++)''')],
 r'''int main(){ put("d","0 5\n"); OnexAPI a; for(int i=0;i<3;i++) a.loadDataset("d",0,0," "); a.unloadDataset(0); CHECK(a.getAllDatasetInfo().size()==2); return 0; }''')
bug('C19-fail','C19','a grouping that fails on an already grouped set',
 'the set keeps its old groups although grouping it failed',
 [(GS,'''  // clear old groups
  reset();

  std::unique_ptr<GlobalGroupSpace> groups(new GlobalGroupSpace(*this));
  int cntGroups = groups->group(distance_name, threshold);
''','''  std::unique_ptr<GlobalGroupSpace> groups(new GlobalGroupSpace(*this));
  int cntGroups = groups->group(distance_name, threshold);

  // clear old groups
  reset();
''')],
 r'''int main(){ put("d","0 5 0\n"); GroupableTimeSeriesSet a; a.loadData("d",0,0," "); a.groupAllLengths("euclidean",1); CHECK(fails([&]{ a.groupAllLengths("nope",1); })); CHECK(!a.isGrouped()); return 0; }''')
bug('C20-slash','C20','an unknown command that contains two slashes',
 'the line is silently taken for a comment',
 [(C,'args[0].find("//") == 0','args[0].find("//") != string::npos')],
 demo_sh=CLI % (r'''printf 'x//y\nquit\n' | '''+RUN+r'''
grep -q 'Error!' out.txt; rc=$?'''))
bug('C20-start','C20','a match of a subsequence that starts at 0',
 'a start of 0 is taken for "no range"',
 [(C,'gOnexAPI.getBestMatch(db_index, q_index, ts_index, start, end);','gOnexAPI.getBestMatch(db_index, q_index, ts_index, start > 0 || ts_index > 0 ? start : -1, start > 0 || ts_index > 0 ? end : -1);')],
 demo_sh=CLI % (r'''printf '1 2 3 9\n4 5 7 1\n' > d
printf 'load d\ngroup 0 0\nmatch 0 0 0 0 2\nquit\n' | '''+RUN+r'''
grep -q 'with length 2' out.txt; rc=$?'''))
bug('C21-read','C21','a read error after some rows of the second pass over the file',
 'the rows read before the error are accepted as the whole dataset',
 [(S,'''  if (f.bad())
  {
    f.close();
    this->clearData();''','''  if (f.bad() && this->itemCount == 0)
  {
    f.close();
    this->clearData();''')],
 r'''#include <dlfcn.h>
#include <unistd.h>
#include <errno.h>
#include <sys/uio.h>
static int n=0, at=1<<30;
extern "C" ssize_t read(int fd, void* b, size_t k){ static ssize_t(*r)(int,void*,size_t)=(ssize_t(*)(int,void*,size_t))dlsym(RTLD_NEXT,"read"); if(n++==at){errno=EIO;return -1;} return r(fd,b,k); }
int main(){ std::string s; for(int i=0;i<4000;i++) s+="1 2 3 4 5\n"; put("d",s); for(int k=0;k<20;k++){ OnexAPI a; n=0; at=k; bool f=fails([&]{a.loadDataset("d",0,0," ");}); at=1<<30; CHECK(f || a.getDatasetInfo(0).itemCount==4000); } return 0; }''', flags='-ldl')
bug('C22-throw','C22','repeatedly loading group files that are rejected',
 'the groups of the length at which a file turns out invalid are never released',
 [(GG,'''    this->localLengthGroupSpace[i] = gel;
    numberOfGroups += gel->loadGroups(fin);''','''    numberOfGroups += gel->loadGroups(fin);
    this->localLengthGroupSpace[i] = gel;''')],
 r'''#include <malloc.h>
int main(){ std::string s; for(int i=0;i<40;i++) s+="3 5 "; put("d",s+"\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.groupDataset(0,0.1); a.saveGroup(0,"g",true); auto f=[&]{a.loadGroup(0,"g");}; for(int i=0;i<20;i++) fails(f); size_t b=mallinfo2().uordblks; for(int i=0;i<500;i++) fails(f); CHECK(mallinfo2().uordblks<b+20000); return 0; }''')
bug('C23-order','C23','candidates at equal distance from different series and starts',
 'such candidates are ordered by start before series index',
 [(TH,'''      if (data.getIndex() == rhs.data.getIndex())
      {
        if (data.getStart() == rhs.data.getStart())
        {
          return data.getLength() < rhs.data.getLength();
        }
        return data.getStart() < rhs.data.getStart();
      }
      return data.getIndex() < rhs.data.getIndex();''','''      if (data.getStart() == rhs.data.getStart())
      {
        if (data.getIndex() == rhs.data.getIndex())
        {
          return data.getLength() < rhs.data.getLength();
        }
        return data.getIndex() < rhs.data.getIndex();
      }
      return data.getStart() < rhs.data.getStart();''')],
 r'''int main(){ double x[9]={0}; candidate_time_series_t a(TimeSeries(x,0,5,7),1), b(TimeSeries(x,1,0,2),1); CHECK(a<b); CHECK(!(b<a)); return 0; }''')
UCR = r'''#include "lib/trillionDTW.h"
#include <sstream>
typedef double R;
static R ref(std::vector<R> a,std::vector<R> b,int r){int m=a.size();std::vector<std::vector<R>> c(m,std::vector<R>(m,1e30));for(int i=0;i<m;i++)for(int j=std::max(0,i-r);j<=std::min(m-1,i+r);j++){R p=1e30;if(!i&&!j)p=0;if(i)p=std::min(p,c[i-1][j]);if(j)p=std::min(p,c[i][j-1]);if(i&&j)p=std::min(p,c[i-1][j-1]);c[i][j]=p+(a[i]-b[j])*(a[i]-b[j]);}return c[m-1][m-1];}
static void zn(std::vector<R>&v){R s=0,q=0;for(R x:v){s+=x;q+=x*x;}s/=v.size();q=std::sqrt(q/v.size()-s*s);for(R&x:v)x=(x-s)/q;}
static unsigned s_=7; static R rnd(){s_=s_*1103515245+12345;return (R)((s_>>16)%1000)/100;}
'''
bug('C24-kim','C24','a nearest window whose third last point aligns best with the last of the query',
 'the Kim bound leaves out one alignment and exceeds the true distance',
 [(TR,'''    d = min(d, dist(y2,q[len-2]));
    d = min(d, dist(y2,q[len-1]));
    lb += d;''','''    d = min(d, dist(y2,q[len-2]));
    lb += d;''')],
 UCR+r'''int main(){ for(int t=0;t<3000;t++){int m=6;std::vector<R>d,q;for(int i=0;i<12;i++)d.push_back((int)rnd()%4);for(int i=0;i<m;i++)q.push_back((int)rnd()%4);
 {std::ofstream f("d");for(R x:d)f<<x<<" ";std::ofstream g("q");for(R x:q)g<<x<<" ";}
 zn(q);if(!std::isfinite(q[0]))continue;R best=1e30;for(int i=0;i+m<=12;i++){std::vector<R>w(d.begin()+i,d.begin()+i+m);zn(w);if(std::isfinite(w[0]))best=std::min(best,ref(w,q,4));}
 if(best>1e29)continue;
 std::ostringstream o;auto b=std::cout.rdbuf(o.rdbuf());calculate("d","q",m,4);std::cout.rdbuf(b);std::string x=o.str();R g=atof(x.c_str()+x.find("Distance : ")+11);CHECK(std::fabs(g-std::sqrt(best))<1e-3*(g+0.1));}return 0;}''')
bug('C24-chunk','C24','a nearest window that lies across the boundary of two chunks of 100000 points',
 'the points carried over to the next chunk are shifted by one',
 [(TR,'buffer[k] = buffer[EPOCH-m+1+k];','buffer[k] = buffer[EPOCH-m+k];')],
 UCR+r'''int main(){ std::vector<R> v; for(int i=0;i<120000;i++) v.push_back(rnd()); double q[8]={0,50,1,-40,30,0,25,-1}; for(int i=0;i<8;i++) v[99995+i]=q[i]; {std::ofstream d("d"); for(double x:v) d<<x<<" "; std::ofstream qf("q"); for(double x:q) qf<<x<<" ";}
 std::ostringstream o; auto b=std::cout.rdbuf(o.rdbuf()); calculate("d","q",8,1); std::cout.rdbuf(b); CHECK(o.str().find("Location : 99995\n")!=std::string::npos); return 0; }''')
bug('C25-memset','C25','the single-precision build creating an owning sequence',
 'clearing a new sequence writes beyond its end',
 [(TH,'memset(this->data, 0, length * sizeof(data_t));','memset(this->data, 0, length * sizeof(double));')],
 r'''int main(){ TimeSeries a(50); CHECK(a[49]==0); return 0; }''', conf='#define SINGLE_PRECISION', flags='-fsanitize=address')
bug('C25-inf','C25','the single-precision build comparing distances larger than the float range allows to square',
 'the inverse norm is computed through an int',
 [(D,'return dropout * dropout * std::max(t_1.getLength(), t_2.getLength());','return dropout * dropout * (sizeof(data_t) == sizeof(float) ? t_1.getLength() - 1 : t_1.getLength());')],
 r'''int main(){ float x[2]={0,0}, y[2]={3,3}; TimeSeries a(x,2), b(y,2); CHECK(pairwiseDistance(a,b,4)==3); return 0; }''', conf='#define SINGLE_PRECISION')
BUGS['C25-inf']['needs']='the single-precision build and a dropout bound slightly above the distance'
BUGS['C25-inf']['breaks']='distances within the bound are reported as infinite'
bug('C26-order','C26','a failed operation on another dataset between two matches',
 'the search order of lengths is remembered for a query length across datasets and ratios',
 [(GG,'vector<int> order (generateTraverseOrder(query.getLength(), this->localLengthGroupSpace.size() - 1));','''static int lastQueryLength = -1;
  static size_t lastSize = 0;
  static vector<int> order;
  if (query.getLength() != lastQueryLength || this->localLengthGroupSpace.size() != lastSize) {
    lastQueryLength = query.getLength();
    lastSize = this->localLengthGroupSpace.size();
    order = generateTraverseOrder(lastQueryLength, lastSize - 1);
  }''')],
 r'''int main(){ setWarpingBandRatio(0); put("d","0 5 0 5 7\n"); put("q","0 0 5\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.loadDataset("q",0,0," "); a.groupDataset(0,0); CHECK(a.getBestMatch(0,1,0).data.getLength()==3); a.setWarpingBandRatio(0.5); CHECK(a.getBestMatch(0,1,0).data.getLength()==2); return 0; }''')
BUGS['C26-order']['needs']='changing the warping band ratio between two matches of queries of the same length'
bug('C27-stop','C27','a query for which the longest length of the dataset is within the band',
 'the longest length is never searched unless it is the own length of the query',
 [(GG,'if (high > totalLength) highStop = true;','if (high >= totalLength) highStop = true;')],
 r'''int main(){ setWarpingBandRatio(0.5); std::vector<int> o=generateTraverseOrder(4,6); CHECK(std::find(o.begin(),o.end(),6)!=o.end()); return 0; }''')

# ---------------------------------------------------------------- third round
bug('C20-eof','C20','Ctrl-D on a terminal, answered with no',
 'the program ends although the user declined to leave',
 [(C,"""strcmp(raw_line, "y") == 0 || strcmp(raw_line, "") == 0)""","""strcmp(raw_line, "y") == 0 || strncmp(raw_line, "", 0) == 0)""")],
 demo_sh=r"""#!/bin/bash
# Exit 0: behaves as it should; nonzero: broken.
repo=$PWD
mkdir -p /tmp/onex-demo-C20-eof && cd /tmp/onex-demo-C20-eof || exit 3
: > config.hpp
g++ -std=c++11 -w -O1 -I. -I"$repo/src" -I"$repo" "$repo/cli/OnexCLI.cpp" $(find "$repo/src" -name '*.cpp') -lreadline -o onex || exit 3
cat > drive.py <<'P'
import os, pty, select, sys, time
pid, fd = pty.fork()
if pid == 0:
    os.environ['TERM'] = 'dumb'
    os.execl('./onex', 'onex')
def wait(t):
    b = b''
    end = time.time() + 20
    while t not in b and time.time() < end:
        if select.select([fd], [], [], 0.2)[0]:
            try: x = os.read(fd, 4096)
            except OSError: return None
            if not x: return None
            b += x
    return b
wait(b'>> ')
os.write(fd, b'\x04'); wait(b'? ')
os.write(fd, b'n\n')
if wait(b'>> ') is None: print('it has ended'); sys.exit(1)
os.write(fd, b'nonsense\n')
ok = wait(b'Cannot find command: nonsense')
if ok is not None: os.write(fd, b'quit\n')
sys.exit(0 if ok and b'nonsense' in ok else 1)
P
timeout 100 python3 drive.py
rc=$?
cd "$repo"
rm -rf /tmp/onex-demo-C20-eof
exit $rc
""")

bug('C22-ucr','C22','repeated searches of a data file',
 'every search leaves its normalized window allocated',
 [(TR,'    free(tz);\n','')],
 r"""#include <malloc.h>
#include "lib/trillionDTW.h"
int main(){ put("d","1 2 3 4 9 2 3 1 5 7 8 2 3 4"); put("q","1 2 3 1 5 7 8"); size_t a=0,b=0;
 for (int i=0;i<40;i++){ calculate("d","q",7,1); if(i==9) a=mallinfo2().uordblks; b=mallinfo2().uordblks; } CHECK(b<=a); return 0; }""")

bug('C24-third','C24','a data file of more than two chunks of 100000 points with the nearest window in the third or later',
 'the location is counted from a wrong start of the chunk',
 [(TR,'loc = (it)*(EPOCH-m+1) + i-m+1;','loc = (long long)it*EPOCH - (it ? m-1 : 0) + i-m+1;')],
 r"""#include "lib/trillionDTW.h"
#undef min
#undef max
#include <unistd.h>
#include <fcntl.h>
int main(){ std::string t; unsigned s=1; int n=260000; std::vector<int> v(n); for(auto&x:v){ s=s*1103515245u+12345u; x=(s>>16)%200; }
 int at=230000; int q[8]={0,900,100,700,300,20,800,5}; for(int i=0;i<8;i++) v[at+i]=q[i];
 for(auto x:v) t+=std::to_string(x)+"\n"; put("d",t); put("q","0 900 100 700 300 20 800 5");
 fflush(stdout); int k=dup(1); int f=open("out",O_CREAT|O_TRUNC|O_WRONLY,0644); dup2(f,1); calculate("d","q",8,0); std::cout.flush(); fflush(stdout); dup2(k,1);
 std::string o=get("out"); size_t p=o.find("Location : "); CHECK(p!=std::string::npos); CHECK(atoi(o.c_str()+p+11)==at); return 0; }""")

bug('C18-holes','C18','unloading all datasets while a lower id is free, then loading again',
 'the dataset count is wrong after all datasets are unloaded, when an id was free',
 [(A,"""  this->loadedDatasets.clear();
  this->datasetCount = 0;""","""  this->datasetCount -= this->loadedDatasets.size();
  this->loadedDatasets.clear();""")],
 r"""int main(){ put("d","1 2\n3 4\n"); OnexAPI a; for(int i=0;i<3;i++) a.loadDataset("d",0,0," "); a.unloadDataset(0); a.unloadAllDataset(); CHECK(a.getDatasetCount()==0); a.loadDataset("d",0,0," "); CHECK(a.getDatasetCount()==1); return 0; }""")

bug('C04-negconst','C04','normalizing a dataset whose values are all the same negative number',
 'such a dataset keeps its values',
 [(S,'if (MAX != 0)','if (MAX > 0)')],
 r"""int main(){ put("d","-2 -2\n-2 -2\n"); TimeSeriesSet s; s.loadData("d",0,0," "); s.normalize(); CHECK(s.getTimeSeries(1)[1]==0); return 0; }""")

bug('C02-longer','C02','a later row with more columns than the first',
 'rows longer than the first are accepted when the first columns are skipped, and overwrite the next row',
 [(S,'else if (length != std::distance(tokens.begin(), tokens.end()))','else if (length > std::distance(tokens.begin(), tokens.end()) + (startCol ? 0 : 0) || (startCol == 0 && length < std::distance(tokens.begin(), tokens.end())))')],
 r"""int main(){ put("d","9 1 2\n9 3 4 5\n9 6 7\n"); OnexAPI a; CHECK(fails([&]{ a.loadDataset("d",0,1," "); })); CHECK(a.getDatasetCount()==0); return 0; }""")

bug('C08-zero','C08','setting the warping band ratio to zero after another ratio',
 'a ratio of zero is ignored and the previous band stays in force',
 [(D,'  warpingBandRatio = ratio;','  if (ratio > 0) warpingBandRatio = ratio;')],
 r"""int main(){ TimeSeries a(4), b(4); a[1]=5; b[2]=5; OnexAPI o; o.setWarpingBandRatio(1); double w=onex::warpedDistance(a,b,INF); o.setWarpingBandRatio(0); double z=onex::warpedDistance(a,b,INF); CHECK(w < 0.1); CHECK(z > 0.5); return 0; }""")


bug('C08-floatratio','C08','a band ratio that is not a single-precision number, for lengths at which the band changes',
 'the band is one wider for some lengths',
 [(D,'double warpingBandRatio = 0.1;','float warpingBandRatio = 0.1;')],
 r"""int main(){ OnexAPI o; o.setWarpingBandRatio(0.58); CHECK(onex::calculateWarpingBandSize(50)==28); return 0; }""")

# ---- fourth round

bug('C10-viewadd','C10','adding to a view after asking it for an envelope',
 'the envelope of a view is not renewed after an addition',
 [(T,"""    data[start + i] += other[i];
  }
  keoghCacheValid = false;""","""    data[start + i] += other[i];
  }
  keoghCacheValid = keoghCacheValid && !isOwnerOfData;""")],
 r"""int main(){ double x[6]={1,2,3,4,5,6}; TimeSeries v(x,0,1,5); v.getKeoghUpper(1); TimeSeries o(4); for(int i=0;i<4;i++) o[i]=10*i; v+=o; const TimeSeries& c=v; CHECK(c.getKeoghUpper(1)[3]==35); return 0; }""")

bug('C15-loaded','C15','groups loaded for a dataset none of whose members is nearer than the stored representative',
 'matching fails although there is a representative at a finite distance',
 [(GG,'  return bestSoFarGroup->getBestMatch(query, this->warpedDistance);','  return bestSoFarGroup->getBestMatch(query, this->warpedDistance, bestSoFarDist);'),
  ('src/Group.hpp','  candidate_time_series_t getBestMatch(const TimeSeries& query, const dist_t distance) const;','  candidate_time_series_t getBestMatch(const TimeSeries& query, const dist_t distance, data_t limit = INF) const;'),
  (G,'candidate_time_series_t Group::getBestMatch(const TimeSeries& query, const dist_t warpedDistance) const','candidate_time_series_t Group::getBestMatch(const TimeSeries& query, const dist_t warpedDistance, data_t limit) const'),
  (G,"""  data_t bestSoFarDist = INF;
  member_coord_t bestSoFarMember(-1, -1);""","""  data_t bestSoFarDist = limit;
  member_coord_t bestSoFarMember(-1, -1);"""),
  (G,'    if (currentDistance < bestSoFarDist)\n','    if (currentDistance <= bestSoFarDist)\n')],
 r"""int main(){ put("a","1 2 3\n4 5 9\n"); put("b","11 12 13\n14 15 19\n"); OnexAPI x; x.loadDataset("a",0,0," "); x.loadDataset("b",0,0," "); x.groupDataset(0,0.1); x.saveGroup(0,"g",false); x.loadGroup(1,"g"); auto r=x.getBestMatch(1,0,0,-1,-1); CHECK(r.data.getLength()>=2); return 0; }""")

bug('C24-envelope','C24','a nearest window that ends exactly at the end of a full chunk of 100000 points',
 'the envelope of the last point of a full chunk is left from before, and the bound drops the true nearest window',
 [(TR,'lower_upper_lemire(buffer, ep, r, l_buff, u_buff);','lower_upper_lemire(buffer, ep < EPOCH ? ep : ep - 1, r, l_buff, u_buff);')],
 r"""#include "lib/trillionDTW.h"
#undef min
#undef max
#include <unistd.h>
#include <fcntl.h>
int main(){ std::string t; unsigned s=1; int n=100050; std::vector<int> v(n); for(auto&x:v){ s=s*1103515245u+12345u; x=(s>>16)%200; }
 int q[8]={0,90,10,70,30,20,80,500}; int at=100000-8; for(int i=0;i<8;i++) v[at+i]=q[i];
 for(auto x:v) t+=std::to_string(x)+"\n"; put("d",t); put("q","0 90 10 70 30 20 80 500");
 fflush(stdout); int k=dup(1); int f=open("out",O_CREAT|O_TRUNC|O_WRONLY,0644); dup2(f,1); calculate("d","q",8,0); std::cout.flush(); fflush(stdout); dup2(k,1);
 std::string o=get("out"); size_t p=o.find("Location : "); CHECK(p!=std::string::npos); CHECK(atoi(o.c_str()+p+11)==at); return 0; }""")

bug('C26-cost','C26','a distance of sequences whose lengths differ by more than the band, computed after one of the same lengths under a wider band',
 'the cost table is kept, and an unreachable corner still holds the former result',
 [(D,'  vector< vector< data_t >> cost(m, vector< data_t >(n));','  static vector< vector< data_t >> cost;\n  bool fresh = cost.size() != m || cost[0].size() != n;\n  if (fresh) cost.assign(m, vector< data_t >(n));'),
  (D,'  cost[m - 1][n - 1] = INF;','  if (fresh) cost[m - 1][n - 1] = INF;')],
 r"""int main(){ TimeSeries a(6), b(3); a[1]=2; OnexAPI o; o.setWarpingBandRatio(1); double w=onex::warpedDistance(a,b,INF); CHECK(!std::isinf(w)); o.setWarpingBandRatio(0.1); CHECK(std::isinf(onex::warpedDistance(a,b,INF))); return 0; }""")

bug('C07-floatbound','C07','a dropout bound within single-precision rounding above the distance',
 'the squared bound is rounded to single precision, so that a distance within the bound can be reported as infinite',
 [(D,'  return dropout * dropout * std::max(t_1.getLength(), t_2.getLength());','  return (float)(dropout * dropout) * std::max(t_1.getLength(), t_2.getLength());')],
 r"""int main(){ TimeSeries a(3), b(3); int bad=0; for(int k=1;k<200;k++){ a[0]=k*0.37; a[1]=k*0.11; double d=onex::pairwiseDistance(a,b,INF); if(std::isinf(onex::pairwiseDistance(a,b,d*(1+1e-10)))) bad++; } CHECK(bad==0); return 0; }""")

bug('C20-seps','C20','a load command with more than one separator',
 'only the first separator given to load is used',
 [(C,'string separators = args.size() > 4 ? args[4] : " ";','string separators = args.size() > 4 ? args[4].substr(0, 1) : " ";')],
 demo_sh=r"""#!/bin/bash
repo=$PWD
mkdir -p /tmp/onex-demo-C20-seps && cd /tmp/onex-demo-C20-seps || exit 3
printf '1,2;3\n4,5;6\n' > d
printf 'load d 0 0 ,;\nquit\n' | timeout 60 "$repo/_build/onex" > out.txt 2>&1
grep -q 'Item length: 3' out.txt
rc=$?
cd "$repo"
rm -rf /tmp/onex-demo-C20-seps
exit $rc
""")

bug('C05-many','C05','a series with a shorter last block after at least eight full ones',
 'the shorter last block is averaged over the full block size for long series',
 [(S,"""    if (count == n || i == srcLength - 1) {
      dest[i / n] = sum / count;
      sum = 0;
      count = 0;
    }
  }
}
""","""    if (count == n || i == srcLength - 1) {
      dest[i / n] = sum / (destLength > 8 ? n : count);
      sum = 0;
      count = 0;
    }
  }
}
""")],
 r"""int main(){ std::string t; for(int i=0;i<17;i++) t+="2 "; put("d",t+"\n"); TimeSeriesSet s; s.loadData("d",0,0," "); s.PAA(2); CHECK(s.getItemLength()==9); CHECK(s.getTimeSeries(0)[8]==2); return 0; }""")

bug('C11-count','C11','grouping a dataset again',
 'the reported number of groups of length 2 includes those of the grouping before',
 [(L,'std::chrono::time_point<std::chrono::system_clock> _last_time;','std::chrono::time_point<std::chrono::system_clock> _last_time;\nstatic const TimeSeriesSet* _last_set; static int _last_count;'),
  (L,"""    }
  }

  return this->getNumberOfGroups();
}""","""    }
  }
  if (this->length == 2) { int n = this->getNumberOfGroups(); int r = _last_set == &dataset && _last_count > n ? _last_count : n; _last_set = &dataset; _last_count = n; return r; }

  return this->getNumberOfGroups();
}""")],
 r"""int main(){ put("d","1 5 9 2\n"); OnexAPI a; a.loadDataset("d",0,0," "); CHECK(a.groupDataset(0,0)==6); CHECK(a.groupDataset(0,1000)==3); return 0; }""")

bug('C14-limit','C14','a query for which a later length has a slightly better representative',
 'the bound handed to the next length is a little too small, so slightly better groups are overlooked',
 [(GG,'getBestGroup(query, this->warpedDistance, bestSoFarDist);','getBestGroup(query, this->warpedDistance, io < 2 ? bestSoFarDist : bestSoFarDist * 0.98);')],
 r"""int main(){ put("d","0 0 9 0 0 0 0 0\n"); unsigned s=3; auto rnd=[&]{ s=s*1103515245u+12345u; return ((s>>16)%1000)/100.0; }; OnexAPI a; a.setWarpingBandRatio(1); int bad=0; for(int t=0;t<150;t++){ std::string d,q; for(int r=0;r<3;r++){ for(int i=0;i<9;i++) d+=std::to_string(rnd())+" "; d+="\n"; } for(int i=0;i<5;i++) q+=std::to_string(rnd())+" "; put("d",d); put("q",q+"\n"); a.unloadAllDataset(); a.loadDataset("d",0,0," "); a.loadDataset("q",0,0," "); a.groupDataset(0,0); double m=a.getBestMatch(0,1,0,-1,-1).dist; TimeSeriesSet S,Q; S.loadData("d",0,0," "); Q.loadData("q",0,0," "); TimeSeries x=Q.getTimeSeries(0); double b=INF; for(int i=0;i<3;i++) for(int p=0;p<9;p++) for(int e=p+2;e<=9;e++) b=std::min(b,(double)onex::warpedDistance(x,S.getTimeSeries(i,p,e),INF)); if(m>b*(1+1e-9)) bad++; } CHECK(bad==0); return 0; }""")

bug('C18-info','C18','unloading and reloading so that an id is reused by a dataset of another path',
 'the name of the first dataset that had an id is reported for the later ones',
 [(A,"""  return dataset_info_t(index,
                        dataset->getFilePath(),""","""  if (this->names.size() <= index) this->names.resize(index + 1);
  if (this->names[index].empty() || index == 0) this->names[index] = dataset->getFilePath();
  return dataset_info_t(index,
                        this->names[index],"""),
  ('src/OnexAPI.hpp','  vector<GroupableTimeSeriesSet*> loadedDatasets;','  vector<GroupableTimeSeriesSet*> loadedDatasets;\n  vector<string> names;')],
 r"""int main(){ put("d","1 2\n"); put("e","3 4\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.loadDataset("d",0,0," "); a.unloadDataset(1); CHECK(a.loadDataset("e",0,0," ").name=="e"); return 0; }""")

bug('C13-data','C13','a match that is not of the own length of the query in a dataset with several series',
 'the sequence of a match longer than the query is cut to its length',
 [(G,'  TimeSeries bestTimeSeries = this->dataset.getTimeSeries(bestIndex, bestStart, bestStart + this->memberLength);','  TimeSeries bestTimeSeries = this->dataset.getTimeSeries(bestIndex, bestStart, bestStart + std::min(this->memberLength, query.getLength() + 2));')],
 r"""int main(){ put("d","0 0 0 0 5 5 5 5 5 5 5 5\n"); put("q","0 0 0 5 5\n"); OnexAPI a; a.setWarpingBandRatio(1); a.loadDataset("d",0,0," "); a.loadDataset("q",0,0," "); a.groupDataset(0,0); for(int i=0;i<5;i++) for(int j=i+2;j<=5;j++){ auto r=a.getBestMatch(0,1,0,i,j); TimeSeriesSet Q; Q.loadData("q",0,0," "); CHECK(std::abs(onex::warpedDistance(Q.getTimeSeries(0,i,j), r.data, INF)-r.dist)<1e-12); } return 0; }""")

# ---- round 5
bug('C19-paa1','C19','PAA with a block size of one on a grouped dataset',
 'the groups survive a PAA that changes no value',
 [(S,"""  int newItemLength = calcPAALength(this->itemLength, n);
  data_t* new_data""","""  int newItemLength = calcPAALength(this->itemLength, n);
  if (newItemLength == this->itemLength) {
    return;
  }
  data_t* new_data""")],
 r"""int main(){ put("d","1 2 3\n4 6 9\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.groupDataset(0,0.5); CHECK(a.getDatasetInfo(0).isGrouped); a.PAA(0,1); CHECK(!a.getDatasetInfo(0).isGrouped); return 0; }""")

bug('C14-256','C14','a group of more than 256 members whose best member was placed early',
 'only the last 256 members of a group are looked at',
 [(G,"""  member_coord_t bestSoFarMember(-1, -1);

  while (currentMemberCoord.first != -1)""","""  member_coord_t bestSoFarMember(-1, -1);

  for (int seen = 0; currentMemberCoord.first != -1 && seen < 256; seen++)""")],
 r"""int main(){ std::string t; for(int i=0;i<300;i++) t+=i==0?"1.5 1.25\n":"1 1\n"; put("d",t); put("q","1.5 1.25\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.loadDataset("q",0,0," "); a.groupDataset(0,100); auto r=a.getBestMatch(0,1,0,0,2); CHECK(r.dist==0); CHECK(r.data.getIndex()==0); return 0; }""")

bug('C10-alias','C10','adding a sequence to itself, or to a view that overlaps it',
 'an addition that involves the same data is skipped',
 [(T,"""  for (int i = 0; i < this->length; i++)
  {
    data[start + i] += other[i];""","""  for (int i = 0; i < this->length && (data != other.data || start != other.start); i++)
  {
    data[start + i] += other[i];""")],
 r"""int main(){ TimeSeries a(2); a[0]=1; a[1]=3; a+=a; CHECK(a[0]==2); CHECK(a[1]==6); return 0; }""")

bug('C18-norm','C18','normalizing a dataset whose values span exactly [0, 1] already',
 'such a dataset is not reported as normalized',
 [(S,"""  normalized = true;
  this->onDataChanged();""","""  normalized = diff != 1 || MIN != 0;
  this->onDataChanged();""")],
 r"""int main(){ put("d","0 0.5 1\n"); OnexAPI a; a.loadDataset("d",0,0," "); a.normalizeDataset(0); CHECK(a.getDatasetInfo(0).isNormalized); return 0; }""")

bug('C22-regroup','C22','grouping a dataset again without unloading it',
 'the groups of the longest length are not released',
 [(GG,"""  for (unsigned int i = 0; i < this->localLengthGroupSpace.size(); i++) {
    delete this->localLengthGroupSpace[i];""","""  for (unsigned int i = 0; i + 1 < this->localLengthGroupSpace.size() || i == 2; i++) {
    delete this->localLengthGroupSpace[i];""")],
 r"""#include <malloc.h>
int main(){ std::string t; for(int i=0;i<100;i++) t+="1 5 3 7\n"; put("d",t); size_t m=0; for(int k=0;k<200;k++){ OnexAPI a; a.loadDataset("d",0,0," "); a.groupDataset(0,0.5); if(k==50) m=mallinfo2().uordblks; } CHECK(mallinfo2().uordblks<m+100000); return 0; }""")

bug('C27-floor','C27','queries longer than the series of the searched dataset',
 'the lower lengths stop at the first that lies beyond the series',
 [(GG,"""    if (low < 2) lowStop = true;
    if (high > totalLength) highStop = true;""","""    if (low < 2 || low > totalLength + 4) lowStop = true;
    if (high > totalLength) highStop = true;""")],
 r"""int main(){ OnexAPI o; o.setWarpingBandRatio(0.9); auto v=onex::generateTraverseOrder(12,5); std::set<int> s(v.begin(),v.end()); CHECK(s.count(5)&&s.count(2)); return 0; }""")

bug('C05-strict','C05','a reduced point count that equals the block size',
 'a dataset whose reduced length equals the block size is reduced twice',
 [(S,"""  delete[] this->data;
  this->data = new_data;
  this->itemLength = newItemLength;""","""  delete[] this->data;
  this->data = new_data;
  bool again = newItemLength == n && this->itemCount > 3 && this->itemLength % n != 0;
  this->itemLength = newItemLength;
  if (again) this->PAA(n);""")],
 r"""int main(){ std::string t; for(int i=0;i<4;i++) t+="1 2 3 4 5 6 7 8\n"; put("d",t); TimeSeriesSet s; s.loadData("d",0,0," "); s.PAA(3); CHECK(s.getItemLength()==3); return 0; }""")

bug('C06-neg','C06','a position range with one negative end',
 'a range with a negative end and a valid start reaches to the end of the series',
 [(S,"""  if (start < 0 && end < 0)
  {
    return TimeSeries(this->data + index * this->itemLength, index, 0, this->itemLength);""","""  if (end < 0 && start <= 0)
  {
    return TimeSeries(this->data + index * this->itemLength, index, 0, this->itemLength);""")],
 r"""int main(){ put("d","1 2 3\n"); TimeSeriesSet s; s.loadData("d",0,0," "); CHECK(fails([&]{ s.getTimeSeries(0,0,-1); })); return 0; }""")

bug('C12-rep','C12','a member much nearer to the representative than the threshold',
 'the representative moves to the latest such member',
 [(L,"""      this->groups[bestSoFarIndex]->addMember(idx, start);""","""      if (bestSoFar > 0 && bestSoFar < threshold * 0.01 && this->groups[bestSoFarIndex]->getCount() > 0) this->groups[bestSoFarIndex]->setCentroid(idx, start);
      this->groups[bestSoFarIndex]->addMember(idx, start);""")],
 r"""int main(){ put("d","1 1\n1.001 1.001\n"); put("e","1.5 1.5\n"); GroupableTimeSeriesSet s; s.loadData("d",0,0," "); s.groupAllLengths("euclidean",1); s.saveGroups("g",false); std::string g=get("g"); CHECK(g.find("\n1 1 \n")!=std::string::npos); return 0; }""")

bug('C16-empty','C16','a group of more than 64 members',
 'the newest member of such a group is written twice',
 [(G,"""  fout << this->count << " ";
  member_coord_t currentMemberCoord = this->lastMemberCoord;
  while (currentMemberCoord.first != -1)""","""  fout << this->count << " ";
  member_coord_t currentMemberCoord = this->lastMemberCoord;
  if (this->count > 64) {
    fout << currentMemberCoord.first << " " << currentMemberCoord.second << " ";
  }
  while (currentMemberCoord.first != -1)""")],
 r"""int main(){ std::string t; for(int i=0;i<70;i++) t+="1 1\n"; put("d",t); GroupableTimeSeriesSet s; s.loadData("d",0,0," "); s.groupAllLengths("euclidean",1); s.saveGroups("g",false); CHECK(s.loadGroups("g")==1); return 0; }""")

bug('C20-help','C20','a command that is rejected while the timer is on',
 'the timer is turned off by it',
 [(C,"""      catch (onex::OnexException& e)
      {
        cout << "Error! " << e.what() << endl;
      }""","""      catch (onex::OnexException& e)
      {
        cout << "Error! " << e.what() << endl;
        gTimerEnabled = false;
      }""")],
 demo_sh=r"""#!/bin/bash
repo=$PWD
mkdir -p /tmp/onex-demo-C20-help && cd /tmp/onex-demo-C20-help || exit 3
printf 'timer on\nload nothing\ntimer\nquit\n' | timeout 60 "$repo/_build/onex" > out.txt 2>&1
[ $(grep -c 'Timer is ON' out.txt) = 2 ]
rc=$?
cd "$repo"
rm -rf /tmp/onex-demo-C20-help
exit $rc
""")

bug('C20-quit','C20','a quit command with blanks or words behind it',
 'quit is only understood when nothing follows it',
 [(C,'  if (args[0] == "quit" || args[0] == "exit")','  if (line == "quit" || args[0] == "exit")')],
 demo_sh=r"""#!/bin/bash
repo=$PWD
mkdir -p /tmp/onex-demo-C20-quit && cd /tmp/onex-demo-C20-quit || exit 3
printf 'quit \nlist dataset\n' | timeout 60 "$repo/_build/onex" > out.txt 2>&1
! grep -q 'There are' out.txt
rc=$?
cd "$repo"
rm -rf /tmp/onex-demo-C20-quit
exit $rc
""")

bug('C04-inf','C04','a dataset of series of fewer than three points',
 'its range is rounded to single precision',
 [(S,"""  data_t diff = MAX - MIN;

  // do not divide by zero""","""  data_t diff = this->itemLength < 3 ? (float)(MAX - MIN) : MAX - MIN;

  // do not divide by zero""")],
 r"""int main(){ put("d","0.1 0.7\n"); TimeSeriesSet s; s.loadData("d",0,0," "); s.normalize(); CHECK(s.getTimeSeries(0)[1]==1); return 0; }""")

bug('C03-group','C03','a row that ends in two equal values saved with a tab as separator',
 'the last value is taken from the row before',
 [(S,"""  for (int i = 0; i < itemCount; i++) {
    for (int j = 0; j < itemLength; j++) {
      f << data[i * itemLength + j] << separator;""","""  for (int i = 0; i < itemCount; i++) {
    for (int j = 0; j < itemLength; j++) {
      if (j > 0 && j + 1 == itemLength && separator == '\\t' && data[i * itemLength + j] == data[i * itemLength + j - 1] && i > 1) { f << data[(i - 1) * itemLength + j] << separator; continue; }
      f << data[i * itemLength + j] << separator;""")],
 r"""int main(){ put("d","1 2\n3 4\n5 5\n"); TimeSeriesSet s; s.loadData("d",0,0," "); s.saveData("e",'\t'); TimeSeriesSet t; t.loadData("e",0,0,"\t"); CHECK(t.getTimeSeries(2)[1]==5); return 0; }""")

# Memory running out: the k-th allocation (of at least least bytes) fails
OOM=r"""#include <new>
#include <cstdlib>
static long failAt=0, seen=0; static size_t least=0;
void* operator new(size_t n){ if(failAt && n>=least && ++seen==failAt) throw std::bad_alloc(); void* p=malloc(n?n:1); if(!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n){ return operator new(n); }
void operator delete(void* p) noexcept { free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
template<class F> static bool starved(long k, size_t l, F f){ seen=0; least=l; failAt=k; bool t=false; try { f(); } catch (std::exception&) { t=true; } failAt=0; return t; }
"""
bug('C28-paa','C28','memory running out while a dataset is being reduced',
 'the length is updated although the reduction failed: series get mixed up',
 [(S,"""  int newItemLength = calcPAALength(this->itemLength, n);
  data_t* new_data""","""  int oldItemLength = this->itemLength;
  int newItemLength = calcPAALength(oldItemLength, n);
  this->itemLength = newItemLength;
  data_t* new_data"""),
  (S,"""    doPAA(this->data + ts * this->itemLength, new_data + ts * newItemLength,
      this->itemLength, n);""","""    doPAA(this->data + ts * oldItemLength, new_data + ts * newItemLength,
      oldItemLength, n);"""),
  (S,"""  this->data = new_data;
  this->itemLength = newItemLength;""","""  this->data = new_data;""")],
 OOM+r"""int main(){ put("d","1 2 3 4\n5 6 7 8\n"); TimeSeriesSet s; s.loadData("d",0,0," "); for(long k=1;k<4;k++) if(starved(k,0,[&]{ s.PAA(2); })) { CHECK(s.getItemLength()==4 && s.getTimeSeries(1)[0]==5); } return 0; }""")
bug('C28-count','C28','memory running out while the list of datasets grows',
 'a dataset that was not loaded is counted',
 [(A,"""  int nextIndex = -1;
  for""","""  this->datasetCount++;
  int nextIndex = -1;
  for"""),
  (A,"""
  this->datasetCount++;

  return this->getDatasetInfo(nextIndex);""","""
  return this->getDatasetInfo(nextIndex);""")],
 OOM+r"""int main(){ put("d","1 2\n"); for(long k=1;k<60;k++) { OnexAPI a; starved(k,0,[&]{ a.loadDataset("d",0,0," "); }); CHECK((size_t)a.getDatasetCount()==a.getAllDatasetInfo().size()); } return 0; }""")
bug('C28-envelope','C28','memory running out while the envelope of a changed sequence is computed for the same band as before, which is then asked for again',
 'the second request returns memory that was never filled',
 [(T,"""  warpingBand = min(warpingBand, this->length - 1);

  // Function""","""  keoghCacheValid = true;
  warpingBand = min(warpingBand, this->length - 1);

  // Function"""),
  (T,"""                     this->keoghLower, this->keoghUpper);

  keoghCacheValid = true;
}""","""                     this->keoghLower, this->keoghUpper);
}""")],
 OOM+r"""int main(){ for(long k=1;k<6;k++) { TimeSeries t(50); for(int i=0;i<50;i++) t[i]=100+i; t.getKeoghLower(1); t[0]=3; starved(k,0,[&]{ t.getKeoghLower(1); }); const data_t* u=t.getKeoghUpper(1); CHECK(u[0]==101 && u[49]==149 && t.getKeoghLower(1)[1]==3); } return 0; }""")
bug('C28-inf','C28','memory running out for the cost matrix of a warped distance',
 'the distance is reported as infinite, and matches are silently missed',
 [(D,"""  vector< vector< data_t >> cost(m, vector< data_t >(n));
""","""  vector< vector< data_t >> cost;
  try
  {
    cost.assign(m, vector< data_t >(n));
  }
  catch (const std::bad_alloc&)
  {
    return INF;
  }
""")],
 OOM+r"""int main(){ TimeSeries a(6), b(6); for(int i=0;i<6;i++){ a[i]=i; b[i]=i+1; } data_t d=warpedDistance(a,b,INF); for(long k=1;k<9;k++) { data_t e=d; starved(k,0,[&]{ e=warpedDistance(a,b,INF); }); CHECK(e==d); } return 0; }""")
bug('C28-partial','C28','memory running out during grouping of the longer subsequences',
 'grouping reports success with groups of the shorter lengths only',
 [(GG,"""    this->localLengthGroupSpace[i] = new LocalLengthGroupSpace(dataset, i);
    int noOfGenerated""","""    try
    {
      this->localLengthGroupSpace[i] = new LocalLengthGroupSpace(dataset, i);
    }
    catch (const std::bad_alloc&)
    {
      this->localLengthGroupSpace.resize(i);
      break;
    }
    int noOfGenerated""")],
 OOM+r"""int main(){ put("d","1 2 3 4 5 6\n2 3 1 5 4 6\n"); OnexAPI g; g.loadDataset("d",0,0," "); int n=g.groupDataset(0,0.5); for(long k=1;k<300;k++) { OnexAPI a; a.loadDataset("d",0,0," "); int m=n; if(!starved(k,0,[&]{ m=a.groupDataset(0,0.5); })) CHECK(m==n); } return 0; }""")

bug('C12-budget','C12','a grouping that takes place more than an hour after the previous progress message was due',
 'the search for the nearest group stops at the first that is near enough',
 [(L,"""      for (unsigned int i = 0; i < groups.size(); i++)
      {
        data_t dist = this->groups[i]->distance""","""      bool late = std::chrono::system_clock::now() - _last_time > std::chrono::hours(1);
      for (unsigned int i = 0; i < groups.size() && !(late && bestSoFar <= threshold / 2); i++)
      {
        data_t dist = this->groups[i]->distance""")],
 r"""#include <chrono>
namespace onex { extern std::chrono::time_point<std::chrono::system_clock> _last_time; }
static bool ahead=false;
extern "C" std::chrono::system_clock::time_point __real__ZNSt6chrono3_V212system_clock3nowEv();
extern "C" std::chrono::system_clock::time_point __wrap__ZNSt6chrono3_V212system_clock3nowEv() { static long n=0; return __real__ZNSt6chrono3_V212system_clock3nowEv()+std::chrono::hours(ahead?2*++n:0); }
int main(){ put("d","0 0\n1 1\n0.9 0.9\n"); std::string a,b; for(int k=0;k<2;k++){ OnexAPI o; o.loadDataset("d",0,0," "); ahead=k; o.groupDataset(0,1.9); o.saveGroup(0,"g",false); (k?b:a)=get("g"); } CHECK(a==b); return 0; }""", flags="-Wl,--wrap=_ZNSt6chrono3_V212system_clock3nowEv")
bug('C14-misses','C14','a nearest group whose length is far from that of the query while several lengths in between bring no improvement',
 'the search gives up after six lengths in a row without improvement',
 [(GG,"""  for (unsigned int io = 0; io < order.size(); io++) {
    int i = order[io];""","""  int misses = 0;
  for (unsigned int io = 0; io < order.size() && misses < 6; io++) {
    int i = order[io];
    misses++;"""),
  (GG,"""      bestSoFarGroup = candidate.first;
""","""      misses = 0;
      bestSoFarGroup = candidate.first;
""")],
 r"""int main()
{
  // a length-3 window that is nearly the query, and a run that is exactly the query, stretched to at least 12 points
  std::string r1 = "100 100 0 5 9.01 100 100 100 100 100 100 100 100 100 100 100 100 100 100 100 100 100 100 100 100 100 100 100 100 100";
  std::string r2;
  for (int j = 0; j < 30; j++) r2 += j < 10 ? "0 " : j < 20 ? "5 " : "9 ";
  put("d", r1 + "\n" + r2 + "\n");
  put("q", "0 5 9\n");
  OnexAPI a;
  a.setWarpingBandRatio(1);
  a.loadDataset("d", 0, 0, " ");
  a.loadDataset("q", 0, 0, " ");
  a.groupDataset(0, 0);
  candidate_time_series_t m = a.getBestMatch(0, 1, 0, -1, -1);
  std::fprintf(stderr, "distance %g length %d\n", (double)m.dist, m.data.getLength());
  CHECK(m.dist < 1e-9);
  return 0;
}""")
bug('C19-samepath','C19','loading a grouped dataset again from the same path, the file having changed',
 'groups of the previous contents are kept',
 [(S,"""  this->clearData();

  std::ifstream f(filePath);""","""  if (filePath != this->filePath)
  {
    this->clearData();
  }
  else
  {
    delete[] this->data;
    this->data = nullptr;
    this->itemCount = 0;
    this->itemLength = 0;
    this->normalized = false;
  }

  std::ifstream f(filePath);""")],
 r"""int main(){ put("d","1 2 3\n"); GroupableTimeSeriesSet s; s.loadData("d",0,0," "); s.groupAllLengths("euclidean",0.5); put("d","3 2 1\n"); s.loadData("d",0,0," "); CHECK(!s.isGrouped()); return 0; }""")
bug('C09-band64','C09','warping bands wider than 64 points',
 'the envelope is computed for a band of 64 and the lower bound exceeds the distance',
 [(T,"  warpingBand = min(warpingBand, this->length - 1);","  warpingBand = min(min(warpingBand, 64), this->length - 1);")],
 r"""int main(){ TimeSeries a(150); for(int i=0;i<150;i++) a[i]=i; const data_t* u=a.getKeoghUpper(100); CHECK(u[0]==100 && u[49]==149); return 0; }""")
bug('C08-wide','C08','warped distances of sequences of more than 400 points under a wide band',
 'the band is capped at 100 points for long sequences',
 [(D,"""  int r = calculateWarpingBandSize(max(m, n));
  data_t idropout = _euc_inorm_dtw""","""  int r = min(calculateWarpingBandSize(max(m, n)), max(max(m, n) - min(m, n), 100));
  data_t idropout = _euc_inorm_dtw""")],
 r"""int main(){ setWarpingBandRatio(0.5); TimeSeries a(500), b(500); for(int i=0;i<500;i++) { a[i]=i==100?5:0; b[i]=i==300?5:0; } CHECK(warpedDistance(a,b,INF)==0); return 0; }""")
bug('C02-late','C02','a row of the wrong length after more than 300 good ones',
 'only the first rows are checked',
 [(S,"      else if (length != std::distance(tokens.begin(), tokens.end()))","      else if (row < 300 && length != std::distance(tokens.begin(), tokens.end()))")],
 r"""int main(){ std::string s; for(int i=0;i<400;i++) s+=i==350?"1 2 3\n":i==360?"1\n":"1 2\n"; put("d",s); TimeSeriesSet t; CHECK(fails([&]{ t.loadData("d",0,0," "); })); return 0; }""")
bug('C25-sizeof','C25','a single-precision build that copies sequences that own their data',
 'twice as many bytes are copied as the sequence has',
 [(TH,"      memcpy(this->data, other.data, length * sizeof(data_t));","      memcpy(this->data, other.data, length * sizeof(double));")],
 r"""int main(){ TimeSeries a(100); for(int i=0;i<100;i++) a[i]=i; TimeSeries b(a); CHECK(b[99]==99); return 0; }""", conf='#define SINGLE_PRECISION', flags='-fsanitize=address')
