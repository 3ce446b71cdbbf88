// Verification stand-in for pybind11 (assumed contract of the dependency): it RECORDS what the binding code registers and calls it
// with the conversions pybind11 documents (numpy arrays in C order, objects by reference, defaults of py::arg, overloads in order of registration).
#pragma once
#include <Eigen/Core>
#include <Eigen/SparseCore>
#include <memory>
#include <vector>
#include <string>
#include <utility>
#include <tuple>
#include <type_traits>
#include <functional>
namespace pybind11 {
struct Val{int kind;int r,c,rs,cs;double*d;double num;void*obj;const char*cls;std::vector<Val>*list;   // 0 none, 1 array, 2 number, 3 object, 4 list
 double at(int i,int j)const{return d[i*rs+j*cs];}
 Val():kind(0),r(0),c(0),rs(0),cs(0),d(0),num(0),obj(0),cls(0),list(0){}};
template<class T>struct Tag{static const char id;};
template<class T>const char Tag<T>::id=0;
// ---- classes and their bases, filled by class_
struct Cls{const char*id;const char*base;};
struct Fn{virtual ~Fn(){} virtual bool ok(const Val*a,int n)const=0; virtual Val call(const Val*a)=0; int na; Fn():na(0){}};
struct Rec{const char*cls;const char*name;Fn*f;std::vector<std::pair<const char*,Val> >args;};
struct Enum{const char*ty;const char*name;long v;};
struct Reg{std::vector<Rec>fs;std::vector<Cls>cs;std::vector<Enum>es;};
static inline bool streq(const char*a,const char*b){for(;*a&&*a==*b;++a,++b);return *a==*b;}
static Reg*REG=0;
static inline bool derives(const char*c,const char*b){if(c==b)return true;if(!REG)return false;for(int k=0;k<4;++k){bool up=false;for(auto&x:REG->cs)if(x.id==c&&x.base){c=x.base;up=true;break;}if(!up)return false;if(c==b)return true;}return false;}
// ---- conversions
typedef Eigen::Stride<Eigen::Dynamic,Eigen::Dynamic> EigenDStride;
template<class M>using EigenDRef=Eigen::Ref<M,0,EigenDStride>;
template<class M>using EigenDMap=Eigen::Map<M,0,EigenDStride>;
template<class T,class=void>struct caster{   // objects
 static bool ok(const Val&v){return v.kind==3&&derives(v.cls,&Tag<T>::id);}
 static T&get(const Val&v){return *(T*)v.obj;}
 static Val put(const T&x){Val v;v.kind=3;v.obj=new T(x);v.cls=&Tag<T>::id;return v;}};
template<class T>struct caster<T,typename std::enable_if<std::is_arithmetic<T>::value||std::is_enum<T>::value>::type>{
 static bool ok(const Val&v){return v.kind==2;}
 static T get(const Val&v){return cast(v,std::is_floating_point<T>());}
 static T cast(const Val&v,std::true_type){return (T)v.num;} static T cast(const Val&v,std::false_type){return (T)(long)v.num;}
 static Val put(T x){Val v;v.kind=2;v.num=(double)x;return v;}};
template<class M>static bool fits(const Val&v){return v.kind==1&&(M::RowsAtCompileTime<0||M::RowsAtCompileTime==v.r||(M::RowsAtCompileTime==1&&v.c==1))&&(M::ColsAtCompileTime<0||M::ColsAtCompileTime==v.c||(M::RowsAtCompileTime==1&&v.c==1&&M::ColsAtCompileTime==v.r));}
template<class D>static Val putm(const D&x){Val v;v.kind=1;v.r=x.rows();v.c=x.cols();v.rs=v.c;v.cs=1;v.d=new double[(v.r*v.c)?v.r*v.c:1];for(int i=0;i<v.r;++i)for(int j=0;j<v.c;++j)v.d[i*v.c+j]=x.coeff(i,j);return v;}
template<class S,int R,int C,int O,int A,int B>struct caster<Eigen::Matrix<S,R,C,O,A,B>,void>{typedef Eigen::Matrix<S,R,C,O,A,B>M;
 static bool ok(const Val&v){return fits<M>(v);}
 static M get(const Val&v){M m(v.r,v.c);for(int i=0;i<v.r;++i)for(int j=0;j<v.c;++j)m(i,j)=v.at(i,j);return m;}
 static Val put(const M&x){return putm(x);}};
template<class S,int R,int C,int O,int A,int B>struct caster<Eigen::Ref<const Eigen::Matrix<S,R,C,O,A,B>,0,EigenDStride>,void>{typedef Eigen::Matrix<S,R,C,O,A,B>M;typedef Eigen::Ref<const M,0,EigenDStride>T;
 static bool ok(const Val&v){return fits<M>(v);}
 static T get(const Val&v){bool row=M::IsRowMajor;return T(Eigen::Map<const M,0,EigenDStride>(v.d,v.r,v.c,EigenDStride(row?v.rs:v.cs,row?v.cs:v.rs)));}
 static Val put(const T&x){return putm(x);}};
template<class S,int R,int C,int O,int A,int B,class St>struct caster<Eigen::Ref<const Eigen::Matrix<S,R,C,O,A,B>,0,St>,void>{typedef Eigen::Matrix<S,R,C,O,A,B>M;typedef Eigen::Ref<const M,0,St>T;
 static bool ok(const Val&v){return fits<M>(v);}
 static T get(const Val&v){M m(v.r,v.c);for(int i=0;i<v.r;++i)for(int j=0;j<v.c;++j)m(i,j)=v.at(i,j);double*b=new double[v.r*v.c?v.r*v.c:1];Eigen::Map<M>(b,v.r,v.c)=m;return T(Eigen::Map<const M>(b,v.r,v.c));}
 static Val put(const T&x){return putm(x);}};
template<class S,int O,class I>struct caster<Eigen::SparseMatrix<S,O,I>,void>{typedef Eigen::SparseMatrix<S,O,I>M;static Val put(const M&x){return putm(x);}};
template<class T,class A>struct caster<std::vector<T,A>,void>{static Val put(const std::vector<T,A>&x){Val v;v.kind=4;v.list=new std::vector<Val>();for(auto&e:x)v.list->push_back(caster<T>::put(e));return v;}};
template<class T>struct caster<std::shared_ptr<T>,void>{static bool ok(const Val&v){return v.kind==3&&derives(v.cls,&Tag<T>::id);}
 static std::shared_ptr<T>get(const Val&v){return std::shared_ptr<T>((T*)v.obj,[](T*){});}static Val put(const std::shared_ptr<T>&x){Val v;v.kind=3;v.obj=x.get();v.cls=&Tag<T>::id;return v;}};
template<class A>using bare=typename std::remove_cv<typename std::remove_reference<A>::type>::type;
template<class A_>struct Hold{typename std::conditional<true,decltype(caster<bare<A_> >::get(std::declval<const Val&>())),void>::type h;Hold(const Val&v):h(caster<bare<A_> >::get(v)){}A_ as(){return static_cast<A_>(h);}};
template<class R>struct ret{template<class F>static Val run(F f){return caster<bare<R> >::put(f());}};
template<>struct ret<void>{template<class F>static Val run(F f){f();return Val();}};
template<class F,class R,class...A>struct FnT:Fn{F f;FnT(F g):f(g){na=sizeof...(A);}
 template<std::size_t...I>bool ok_(const Val*a,std::index_sequence<I...>)const{bool o=true;int x[]={0,(o=o&&caster<bare<A> >::ok(a[I]),0)...};(void)x;return o;}
 template<std::size_t...I>Val call_(const Val*a,std::index_sequence<I...>){return ret<R>::run([&]()->R{return f(Hold<A>(a[I]).as()...);});}
 bool ok(const Val*a,int n)const override{return n==(int)sizeof...(A)&&ok_(a,std::index_sequence_for<A...>());}
 Val call(const Val*a)override{return call_(a,std::index_sequence_for<A...>());}};
template<class T,class R,class C,class...A>static Fn*wrap(R(C::*p)(A...)){auto l=[p](T&o,A...a)->R{return (o.*p)(std::forward<A>(a)...);};return new FnT<decltype(l),R,T&,A...>(l);}
template<class T,class R,class C,class...A>static Fn*wrap(R(C::*p)(A...)const){auto l=[p](const T&o,A...a)->R{return (o.*p)(std::forward<A>(a)...);};return new FnT<decltype(l),R,const T&,A...>(l);}
template<class T,class R,class...A>static Fn*wrap(R(*p)(A...)){return new FnT<R(*)(A...),R,A...>(p);}
template<class L,class R,class C,class...A>static Fn*wrapl(L l,R(C::*)(A...)const){return new FnT<L,R,A...>(l);}
template<class L,class R,class C,class...A>static Fn*wrapl(L l,R(C::*)(A...)){return new FnT<L,R,A...>(l);}
template<class T,class L>static auto wrap(L l)->decltype(wrapl(l,&L::operator())){return wrapl(l,&L::operator());}
// ---- extras
enum class return_value_policy{automatic,automatic_reference,take_ownership,copy,move,reference,reference_internal};
struct is_operator{}; struct noconvert{}; struct dynamic_attr{}; template<int A,int B>struct keep_alive{}; struct scope{}; template<class...>struct call_guard{}; struct doc{doc(const char*){}}; struct gil_scoped_release{}; struct arithmetic{}; struct module_local{};
struct arg_v{const char*n;Val v;};
template<class T>static Val defv(const T&x){return caster<T>::put(x);}
struct arg{const char*n;explicit constexpr arg(const char*x):n(x){}template<class T>arg_v operator=(T&&x)const{arg_v a;a.n=n;a.v=defv(bare<T>(x));return a;}arg&noconvert(bool=true){return *this;}};
namespace literals{inline arg operator"" _a(const char*n,size_t){return arg(n);}}
template<class X>static void extra(Rec&,const X&){}
static inline void extra(Rec&r,const arg&a){r.args.push_back(std::make_pair(a.n,Val()));}
static inline void extra(Rec&r,const arg_v&a){r.args.push_back(std::make_pair(a.n,a.v));}
template<class...E>static void add(const char*cls,const char*name,Fn*f,const E&...e){Rec r;r.cls=cls;r.name=name;r.f=f;int x[]={0,(extra(r,e),0)...};(void)x;REG->fs.push_back(r);}
static constexpr auto const_=std::true_type{};
template<class...A>struct overload_cast_t{
 template<class R>constexpr auto operator()(R(*p)(A...))const->decltype(p){return p;}
 template<class R,class C>constexpr auto operator()(R(C::*p)(A...),std::false_type={})const->decltype(p){return p;}
 template<class R,class C>constexpr auto operator()(R(C::*p)(A...)const,std::true_type)const->decltype(p){return p;}};
template<class...A>static constexpr overload_cast_t<A...>overload_cast={};
template<class...A>struct init_t{};
template<class L>struct initf_t{L l;};
template<class...A>init_t<A...>init(){return init_t<A...>();}
template<class L>initf_t<L>init(L l){return initf_t<L>{l};}
template<class T,class...A>struct FnInit:Fn{FnInit(){na=sizeof...(A);}
 template<std::size_t...I>bool ok_(const Val*a,std::index_sequence<I...>)const{bool o=true;int x[]={0,(o=o&&caster<bare<A> >::ok(a[I]),0)...};(void)x;return o;}
 template<std::size_t...I>Val call_(const Val*a,std::index_sequence<I...>){Val v;v.kind=3;v.obj=new T(Hold<A>(a[I]).as()...);v.cls=&Tag<T>::id;return v;}
 bool ok(const Val*a,int n)const override{return n==(int)sizeof...(A)&&ok_(a,std::index_sequence_for<A...>());}
 Val call(const Val*a)override{return call_(a,std::index_sequence_for<A...>());}};
// ---- modules, classes, enumerations
struct handle{};struct object:handle{};
template<class T,class...O>struct class_;
struct module_{const char*&doc(){static const char*d;return d;}
 template<class F,class...E>module_&def(const char*n,F f,const E&...e){add(0,n,wrap<void>(f),e...);return *this;}
 module_ def_submodule(const char*,const char* =0){return *this;}};
typedef module_ module;
template<class T,class B,bool>struct base1{static const char*id(){return 0;}};
template<class T,class B>struct base1<T,B,true>{static const char*id(){return &Tag<B>::id;}};
template<class T,class...O>struct class_:object{
 template<class...E>class_(module_&,const char*,const E&...){Cls c;c.id=&Tag<T>::id;c.base=0;const char*x[]={(const char*)0,base1<T,O,std::is_base_of<O,T>::value&&!std::is_same<O,T>::value>::id()...};for(auto b:x)if(b)c.base=b;REG->cs.push_back(c);}
 template<class...A,class...E>class_&def(init_t<A...>,const E&...e){add(&Tag<T>::id,"__init__",new FnInit<T,A...>(),e...);return *this;}
 template<class L,class...E>class_&def(initf_t<L> l,const E&...e){add(&Tag<T>::id,"__init__",wrap<T>(l.l),e...);return *this;}
 template<class F,class...E>class_&def(const char*n,F f,const E&...e){add(&Tag<T>::id,n,wrap<T>(f),e...);return *this;}
 template<class F,class...E>class_&def_static(const char*n,F f,const E&...e){add(0,n,wrap<void>(f),e...);return *this;}
 template<class...X>class_&def_property_readonly(const X&...){return *this;} template<class...X>class_&def_property(const X&...){return *this;} template<class...X>class_&def_readonly(const X&...){return *this;} template<class...X>class_&def_readwrite(const X&...){return *this;}};
template<class T>struct enum_:object{const char*n;enum_(module_&,const char*x,const char* =0):n(x){}
 enum_&value(const char*k,T v,const char* =0){Enum e;e.ty=n;e.name=k;e.v=(long)v;REG->es.push_back(e);return *this;} enum_&export_values(){return *this;}};
template<class...X>static void add_ostream_redirect(const X&...){}
// ---- what the interpreter does: choose the overload by the arguments, fill in defaults
static bool invoke(const char*cls,const char*name,const Val*a,int n,Val&out){
 for(int up=0;up<4;++up){
  for(auto&r:REG->fs){if(r.cls!=cls||!streq(r.name,name))continue;
   Val v[10];int k=n;if(n>r.f->na)continue;for(int i=0;i<n;++i)v[i]=a[i];
   int named=r.args.size(),first=r.f->na-named;bool bad=false;
   while(k<r.f->na){if(k<first||!r.args[k-first].second.kind){bad=true;break;}v[k]=r.args[k-first].second;++k;}
   if(bad||!r.f->ok(v,k))continue;
   out=r.f->call(v);return true;}
  if(!cls)return false;bool f=false;for(auto&x:REG->cs)if(x.id==cls&&x.base){cls=x.base;f=true;break;}if(!f)return false;}
 return false;}
}
#define PYBIND11_MODULE(name,m) static void pybind11_init_##name(pybind11::module_&m)
