/**
 * irdump - link LLVM bitcode files, normalise the functions of the project
 * (promote locals to SSA, inline helpers, fold constants) and write them as
 * JSON for the analyses in /verif/engine.  Nothing is executed.
 *
 * usage: irdump PROFILE OUT.json PROJECT_PREFIX[:PREFIX..] in.bc...
 *   PROFILE  text file; each line "keep REGEX" names functions (demangled,
 *            without template arguments and parameters) which are not inlined;
 *            "inline REGEX" names non-project functions which are inlined;
 *            "root REGEX" names the project functions to write (default: all).
 */
#include "llvm/ADT/DenseMap.h"
#include "llvm/BinaryFormat/Dwarf.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Analysis/CGSCCPassManager.h"
#include "llvm/Transforms/Scalar/LoopPassManager.h"
#include "llvm/Demangle/Demangle.h"
#include "llvm/IR/CFG.h"
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfo.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/Operator.h"
#include "llvm/IR/Verifier.h"
#include "llvm/IRReader/IRReader.h"
#include "llvm/Linker/Linker.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include "llvm/Support/SourceMgr.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Transforms/IPO/AlwaysInliner.h"
#include "llvm/Transforms/Scalar/ADCE.h"
#include "llvm/Analysis/InstructionSimplify.h"
#include "llvm/Transforms/Scalar/SCCP.h"
#include "llvm/Transforms/Scalar/SROA.h"
#include "llvm/Transforms/Scalar/SimplifyCFG.h"
#include <fstream>
#include <functional>
#include <map>
#include <cstring>
#include <set>
#include <string>
#include <vector>

using namespace llvm;

static std::vector<std::string> prefixes;
static std::vector<Regex> keepRe, inlineRe, rootRe;
static std::set< const Function* > emitted;
static std::set< const Function* > bodyless; /** had a body, dropped as irrelevant **/

static std::string pathOf( const DISubprogram *sp )
{
   if( ! sp ) return "";
   std::string f = sp->getFilename().str();
   if( ! f.empty() && f[ 0 ] == '/' ) return f;
   return sp->getDirectory().str() + "/" + f;
}

static std::string normPath( std::string p )
{
   SmallString< 256 > s( p );
   std::vector< std::string > parts;
   std::string cur;
   for( size_t i = 0; i <= p.size(); i++ )
   {
      if( i == p.size() || p[ i ] == '/' )
      {
         if( cur == ".." ) { if( ! parts.empty() ) parts.pop_back(); }
         else if( ! cur.empty() && cur != "." ) parts.push_back( cur );
         cur.clear();
      }
      else cur += p[ i ];
   }
   std::string o;
   for( auto &x : parts ) o += "/" + x;
   return o;
}

static bool ownFile( const std::string &f )
{
   const auto p = normPath( f );
   for( auto &x : prefixes ) if( p.compare( 0, x.size(), x ) == 0 ) return true;
   return false;
}

static bool isProject( const Function &F )
{
   auto *sp = F.getSubprogram();
   if( ! sp ) return false;
   const auto p = normPath( pathOf( sp ) );
   for( auto &x : prefixes ) if( p.compare( 0, x.size(), x ) == 0 ) return true;
   return false;
}

/** strip template arguments and parameter list of a demangled name **/
static std::string strip( const std::string &d )
{
   std::string o;
   int depth = 0;
   for( size_t i = 0; i < d.size(); i++ )
   {
      if( d.compare( i, 8, "operator" ) == 0 && depth == 0 &&
          ( i == 0 || ! ( isalnum( d[ i - 1 ] ) || d[ i - 1 ] == '_' ) ) )
      {
         size_t j = i + 8;
         o += "operator";
         if( d.compare( j, 2, "()" ) == 0 ) { o += "()"; j += 2; }
         else if( d.compare( j, 2, "[]" ) == 0 ) { o += "[]"; j += 2; }
         else while( j < d.size() && ispunct( d[ j ] ) && d[ j ] != '(' && d[ j ] != '_' ) { o += d[ j ]; j++; }
         i = j - 1;
         continue;
      }
      if( d[ i ] == '<' ) { depth++; continue; }
      if( d[ i ] == '>' && i && d[ i - 1 ] != '-' ) { depth--; continue; }
      if( depth ) continue;
      if( d.compare( i, 22, "(anonymous namespace)" ) == 0 ) { o += "anon"; i += 20; continue; }
      if( d[ i ] == '(' )
      {
         // parameter list, unless a qualified name continues behind it
         int dd = 0; size_t j = i;
         for( ; j < d.size(); j++ )
         {
            if( d[ j ] == '(' ) dd++;
            if( d[ j ] == ')' ) { dd--; if( ! dd ) break; }
         }
         // a return type that is computed
         if( o.size() >= 8 && o.compare( o.size() - 8, 8, "decltype" ) == 0 ) { o += "_"; i = j; continue; }
         // local entities: f(args)::lambda / f(args) const::lambda
         size_t k = j + 1;
         if( d.compare( k, 6, " const" ) == 0 ) k += 6;
         if( d.compare( k, 2, "::" ) == 0 ) { i = k - 1; continue; }
         break;
      }
      o += d[ i ];
   }
   // drop a leading return type
   int dd = 0; size_t cut = std::string::npos;
   for( size_t i = 0; i < o.size(); i++ )
   {
      if( o[ i ] == '(' || o[ i ] == '{' || o[ i ] == '\'' ) dd++;
      if( o[ i ] == ')' || o[ i ] == '}' ) dd--;
      if( o[ i ] == ' ' && dd == 0 && o.compare( 0, 8, "operator" ) != 0 )
      {
         if( o.find( "operator", 0 ) != std::string::npos && o.find( "operator" ) < i ) break;
         cut = i;
      }
   }
   if( cut != std::string::npos ) o = o.substr( cut + 1 );
   return o;
}

static std::string dem( StringRef n ) { return demangle( n.str() ); }

static bool matches( std::vector< Regex > &rs, const std::string &s )
{
   for( auto &r : rs ) if( r.match( s ) ) return true;
   return false;
}

/** ---------------------------------------------------------------- DI **/
static std::map< StructType*, std::map< DICompositeType*, int > > votes;
static std::map< StructType*, DICompositeType* > st2di;

static DIType *stripDI( DIType *t )
{
   while( t )
   {
      if( auto *d = dyn_cast< DIDerivedType >( t ) )
      {
         switch( d->getTag() )
         {
            case dwarf::DW_TAG_typedef: case dwarf::DW_TAG_const_type:
            case dwarf::DW_TAG_volatile_type: case dwarf::DW_TAG_atomic_type:
               t = d->getBaseType(); continue;
            default: return t;
         }
      }
      return t;
   }
   return nullptr;
}

static DICompositeType *pointee( DIType *t )
{
   t = stripDI( t );
   if( auto *d = dyn_cast_or_null< DIDerivedType >( t ) )
   {
      if( d->getTag() == dwarf::DW_TAG_pointer_type ||
          d->getTag() == dwarf::DW_TAG_reference_type ||
          d->getTag() == dwarf::DW_TAG_rvalue_reference_type )
         return dyn_cast_or_null< DICompositeType >( stripDI( d->getBaseType() ) );
   }
   return nullptr;
}

static void vote( StructType *s, DICompositeType *d )
{
   if( ! s || ! d || s->isLiteral() ) return;
   votes[ s ][ d ]++;
}

static void collectVotes( Module &M )
{
   for( auto &F : M )
   {
      DenseMap< Value*, DIType* > slot;
      for( auto &I : instructions( F ) )
      {
         if( auto *d = dyn_cast< DbgDeclareInst >( &I ) )
         {
            auto *v = d->getAddress();
            auto *t = d->getVariable()->getType();
            if( ! v ) continue;
            slot[ v ] = t;
            if( auto *a = dyn_cast< AllocaInst >( v ) )
               if( auto *s = dyn_cast< StructType >( a->getAllocatedType() ) )
                  if( auto *c = dyn_cast_or_null< DICompositeType >( stripDI( t ) ) )
                     vote( s, c );
         }
      }
      for( auto &I : instructions( F ) )
         if( auto *g = dyn_cast< GetElementPtrInst >( &I ) )
         {
            auto *s = dyn_cast< StructType >( g->getSourceElementType() );
            if( ! s ) continue;
            if( auto *l = dyn_cast< LoadInst >( g->getPointerOperand() ) )
            {
               auto it = slot.find( l->getPointerOperand() );
               if( it != slot.end() ) vote( s, pointee( it->second ) );
            }
         }
   }
}

static uint64_t bitsOf( Module &M, StructType *s )
{
   return M.getDataLayout().getStructLayout( s )->getSizeInBits();
}

static DIType *memberAt( DICompositeType *d, uint64_t bitoff, std::string &name );

/** scope-qualified name without template arguments **/
static std::string qualDI( const DIScope *t )
{
   std::string n = t->getName().str(), o;
   int d = 0;
   for( char c : n ) { if( c == '<' ) d++; if( ! d ) o += c; if( c == '>' ) d--; }
   auto *sc = t->getScope();
   while( sc && isa< DILexicalBlockBase >( sc ) ) sc = sc->getScope();
   if( sc && ( isa< DINamespace >( sc ) || isa< DICompositeType >( sc ) ) )
   {
      if( auto *ns = dyn_cast< DINamespace >( sc ) )
         if( ns->getExportSymbols() ) return qualDI( ns ).substr( 0, qualDI( ns ).rfind( "::" ) == std::string::npos ? 0 : qualDI( ns ).rfind( "::" ) + 2 ) + o;
      return qualDI( sc ) + "::" + o;
   }
   return o;
}

static std::string qualST( StructType *s )
{
   if( s->isLiteral() || ! s->hasName() ) return "";
   std::string n = s->getName().str();
   auto p = n.find( '.' );
   if( p == std::string::npos ) return "";
   n = n.substr( p + 1 );
   while( true )
   {
      auto q = n.rfind( '.' );
      if( q == std::string::npos ) break;
      const auto t = n.substr( q + 1 );
      if( t == "base" || ( ! t.empty() && t.find_first_not_of( "0123456789" ) == std::string::npos ) ) n = n.substr( 0, q );
      else break;
   }
   // inline namespace of libstdc++
   for( auto x : { "__cxx11::", "_V2::", "__8::" } )
      for( auto q = n.find( x ); q != std::string::npos; q = n.find( x ) ) n.erase( q, strlen( x ) );
   return n;
}

/** all members of the type lie where the debug information says **/
static int layoutFits( Module &M, StructType *s, DICompositeType *d )
{
   if( s->isOpaque() ) return -1;
   auto *lay = M.getDataLayout().getStructLayout( s );
   int ok = 0;
   for( unsigned i = 0; i < s->getNumElements(); i++ )
   {
      std::string nm;
      if( memberAt( d, lay->getElementOffsetInBits( i ), nm ) ) ok++;
      else
      {
         auto *e = s->getElementType( i );
         bool pad = e->isArrayTy() && e->getArrayElementType()->isIntegerTy( 8 );
         if( ! pad && ! ( i == 0 ) ) return -1;      // a vtable pointer has no member
      }
   }
   return ok;
}

static void resolveTypes( Module &M )
{
   std::map< std::string, std::vector< DICompositeType* > > byName;
   {
      DebugInfoFinder fi;
      fi.processModule( M );
      for( auto *t : fi.types() )
         if( auto *c = dyn_cast< DICompositeType >( t ) )
            if( ! c->isForwardDecl() && ! c->getName().empty() ) byName[ qualDI( c ) ].push_back( c );
   }
   for( auto *s : M.getIdentifiedStructTypes() )
   {
      const auto q = qualST( s );
      auto it = byName.find( q );
      if( q.empty() || it == byName.end() || s->isOpaque() ) continue;
      DICompositeType *best = nullptr; int bs = -1;
      const bool base = s->getName().contains( ".base" );
      for( auto *c : it->second )
      {
         const auto want = c->getSizeInBits(), have = bitsOf( M, s );
         if( base ? have > want : have != want ) continue;
         const int f = layoutFits( M, s, c );
         if( f > bs ) { bs = f; best = c; }
      }
      if( best ) st2di[ s ] = best;
   }
   for( auto &kv : votes )
   {
      if( st2di.count( kv.first ) || qualST( kv.first ).find( "anon" ) == std::string::npos ) continue;
      DICompositeType *best = nullptr; int n = 0;
      for( auto &c : kv.second )
      {
         if( c.first->getSizeInBits() != bitsOf( M, kv.first ) ) continue;
         if( layoutFits( M, kv.first, c.first ) < 0 ) continue;
         if( c.second > n ) { n = c.second; best = c.first; }
      }
      if( best ) st2di[ kv.first ] = best;
   }
   // propagate into members
   bool ch = true;
   while( ch )
   {
      ch = false;
      std::vector< std::pair< StructType*, DICompositeType* > > add;
      for( auto &kv : st2di )
      {
         auto *s = kv.first;
         if( s->isOpaque() ) continue;
         auto *lay = M.getDataLayout().getStructLayout( s );
         for( unsigned i = 0; i < s->getNumElements(); i++ )
         {
            auto *e = s->getElementType( i );
            while( auto *at = dyn_cast< ArrayType >( e ) ) e = at->getElementType();
            auto *es = dyn_cast< StructType >( e );
            if( ! es || st2di.count( es ) || es->isLiteral() ) continue;
            if( qualST( es ).find( "anon" ) == std::string::npos ) continue;
            std::string nm;
            auto *mt = stripDI( memberAt( kv.second, lay->getElementOffsetInBits( i ), nm ) );
            while( auto *c = dyn_cast_or_null< DICompositeType >( mt ) )
            {
               if( c->getTag() != dwarf::DW_TAG_array_type ) break;
               mt = stripDI( c->getBaseType() );
            }
            if( auto *c = dyn_cast_or_null< DICompositeType >( mt ) )
               if( layoutFits( M, es, c ) >= 0 ) add.push_back( { es, c } );
         }
      }
      for( auto &a : add ) if( ! st2di.count( a.first ) ) { st2di[ a.first ] = a.second; ch = true; }
   }
}

static DIType *memberAt( DICompositeType *d, uint64_t bitoff, std::string &name )
{
   if( ! d ) return nullptr;
   DIType *base = nullptr; std::string bname;
   for( auto *e : d->getElements() )
   {
      auto *m = dyn_cast< DIDerivedType >( e );
      if( ! m || m->isStaticMember() ) continue;
      if( m->getTag() == dwarf::DW_TAG_member && m->getOffsetInBits() == bitoff && m->getSizeInBits() )
      {
         name = m->getName().str();
         if( name.empty() ) name = "(anon)";
         return m->getBaseType();
      }
      if( m->getTag() == dwarf::DW_TAG_inheritance && m->getOffsetInBits() == bitoff )
      {
         base = m->getBaseType();
         bname = "(base)";
      }
   }
   if( base ) { name = bname; return base; }
   return nullptr;
}

static std::string diTypeName( DIType *t )
{
   if( ! t ) return "void";
   if( auto *d = dyn_cast< DIDerivedType >( t ) )
   {
      switch( d->getTag() )
      {
         case dwarf::DW_TAG_pointer_type: return diTypeName( d->getBaseType() ) + "*";
         case dwarf::DW_TAG_reference_type: return diTypeName( d->getBaseType() ) + "&";
         case dwarf::DW_TAG_rvalue_reference_type: return diTypeName( d->getBaseType() ) + "&&";
         case dwarf::DW_TAG_const_type: return diTypeName( d->getBaseType() );
         case dwarf::DW_TAG_volatile_type: return diTypeName( d->getBaseType() );
         case dwarf::DW_TAG_typedef: return diTypeName( d->getBaseType() );
         default: return d->getName().str();
      }
   }
   if( auto *c = dyn_cast< DICompositeType >( t ) )
   {
      std::string n = c->getName().str();
      return n;
   }
   return t->getName().str();
}

/** attach the member names to the address computations, before linking may
 *  unify types of equal layout **/
static void annotate( Module &M )
{
   votes.clear(); st2di.clear();
   collectVotes( M );
   resolveTypes( M );
   auto &C = M.getContext();
   auto typeName = [&]( StructType *st ) -> std::string {
      auto it = st2di.find( st );
      return it != st2di.end() ? it->second->getName().str() : "";
   };
   for( auto &F : M )
      for( auto &I : instructions( F ) )
      {
         if( auto *a = dyn_cast< AllocaInst >( &I ) )
         {
            if( auto *st = dyn_cast< StructType >( a->getAllocatedType() ) )
               a->setMetadata( "rf.type", MDNode::get( C, { MDString::get( C, typeName( st ) ) } ) );
            continue;
         }
         auto *g = dyn_cast< GetElementPtrInst >( &I );
         if( ! g ) continue;
         std::vector< Metadata* > l;
         Type *cur = g->getSourceElementType();
         bool first = true, own = false;
         for( auto ix = g->idx_begin(); ix != g->idx_end(); ++ix )
         {
            if( first ) { first = false; continue; }
            if( auto *st = dyn_cast< StructType >( cur ) )
            {
               const unsigned i = cast< ConstantInt >( ix->get() )->getZExtValue();
               std::string m, ft;
               auto it = st2di.find( st );
               if( it != st2di.end() )
               {
                  if( auto *df = it->second->getFile() )
                     if( ownFile( df->getFilename().starts_with( "/" ) ? df->getFilename().str() : ( df->getDirectory() + "/" + df->getFilename() ).str() ) ) own = true;
                  auto *t = memberAt( it->second, M.getDataLayout().getStructLayout( st )->getElementOffsetInBits( i ), m );
                  if( t ) ft = diTypeName( t );
               }
               l.push_back( MDString::get( C, m ) );
               l.push_back( MDString::get( C, typeName( st ) ) );
               l.push_back( MDString::get( C, ft ) );
               cur = st->getElementType( i );
            }
            else if( auto *at = dyn_cast< ArrayType >( cur ) ) cur = at->getElementType();
            else break;
         }
         if( ! l.empty() ) g->setMetadata( "rf.path", MDNode::get( C, l ) );
         for( size_t k = 0; k < l.size(); k += 3 ) { const auto n = cast< MDString >( l[ k ] )->getString(); if( n.empty() || n.starts_with( "(" ) ) own = false; }
         if( ! l.empty() && own ) g->setMetadata( "rf.own", MDNode::get( C, {} ) );
      }
}

/**
 * The inliner folds the address of a first member into the address of its
 * object, which loses the name; such addresses pass it as opaque calls.
 */
static std::map< Function*, std::vector< std::pair< Type*, unsigned > > > hideFirstMembers( Module &M )
{
   std::map< Function*, std::vector< std::pair< Type*, unsigned > > > kept;
   std::map< std::pair< Type*, unsigned >, Function* > fn;
   std::vector< GetElementPtrInst* > l;
   for( auto &F : M )
      for( auto &I : instructions( F ) )
         if( auto *g = dyn_cast< GetElementPtrInst >( &I ) )
            if( g->hasAllZeroIndices() && g->getMetadata( "rf.path" ) && g->getMetadata( "rf.own" ) && g->getNumIndices() > 1 && g->getType()->isPointerTy() ) l.push_back( g );
   for( auto *g : l )
   {
      auto &f = fn[ { g->getSourceElementType(), g->getNumIndices() } ];
      if( ! f )
      {
         auto *t = FunctionType::get( g->getType(), { g->getType() }, false );
         f = Function::Create( t, GlobalValue::ExternalLinkage, "rf.first." + std::to_string( fn.size() ), M );
         f->setDoesNotAccessMemory(); f->setDoesNotThrow(); f->setWillReturn();
         kept[ f ].push_back( { g->getSourceElementType(), g->getNumIndices() } );
      }
      auto *c = CallInst::Create( f->getFunctionType(), f, { g->getPointerOperand() }, "", g );
      c->setDebugLoc( g->getDebugLoc() );
      c->setMetadata( "rf.path", g->getMetadata( "rf.path" ) );
      g->replaceAllUsesWith( c );
      g->eraseFromParent();
   }
   return kept;
}

static void showFirstMembers( const std::map< Function*, std::vector< std::pair< Type*, unsigned > > > &kept )
{
   for( auto &kv : kept )
   {
      std::vector< CallBase* > l;
      for( auto *U : kv.first->users() ) if( auto *c = dyn_cast< CallBase >( U ) ) l.push_back( c );
      for( auto *c : l )
      {
         std::vector< Value* > ix( kv.second[ 0 ].second, ConstantInt::get( Type::getInt32Ty( c->getContext() ), 0 ) );
         auto *g = GetElementPtrInst::CreateInBounds( kv.second[ 0 ].first, c->getArgOperand( 0 ), ix, "", c );
         g->setDebugLoc( c->getDebugLoc() );
         g->setMetadata( "rf.path", c->getMetadata( "rf.path" ) );
         c->replaceAllUsesWith( g );
         c->eraseFromParent();
      }
      kv.first->eraseFromParent();
   }
}

/** ----------------------------------------------------------- vtables **/
struct VCall { std::string cls; int64_t off; };
/** (class typeinfo name, offset) -> target functions **/
static std::map< std::pair< std::string, int64_t >, std::set< std::string > > vtargets;
static std::map< std::string, std::map< std::string, std::set<std::string> > > classVt;

static void collectVtables( Module &M )
{
   const auto &DL = M.getDataLayout();
   for( auto &G : M.globals() )
   {
      if( ! G.getName().starts_with( "_ZTV" ) || ! G.hasInitializer() ) continue;
      std::map< uint64_t, std::string > slots;
      auto *cs = dyn_cast< ConstantStruct >( G.getInitializer() );
      if( ! cs ) continue;
      auto *lay = DL.getStructLayout( cs->getType() );
      for( unsigned i = 0; i < cs->getNumOperands(); i++ )
      {
         auto *ca = dyn_cast< ConstantArray >( cs->getOperand( i ) );
         if( ! ca ) continue;
         const auto base = lay->getElementOffset( i ).getFixedValue();
         for( unsigned j = 0; j < ca->getNumOperands(); j++ )
         {
            auto *c = ca->getOperand( j )->stripPointerCasts();
            if( auto *f = dyn_cast< Function >( c ) ) slots[ base + 8 * j ] = f->getName().str();
         }
      }
      SmallVector< MDNode*, 4 > tys;
      G.getMetadata( LLVMContext::MD_type, tys );
      for( auto *n : tys )
      {
         auto off = mdconst::extract< ConstantInt >( n->getOperand( 0 ) )->getZExtValue();
         auto *s = dyn_cast< MDString >( n->getOperand( 1 ) );
         if( ! s ) continue;
         for( auto &kv : slots )
            if( kv.first >= off )
               vtargets[ { s->getString().str(), (int64_t)( kv.first - off ) } ].insert( kv.second );
      }
   }
}

/** ---------------------------------------------------------- may throw **/
static std::set< const Function* > throwsSet;

static bool isDecl( const Function &F ) { return F.isDeclaration() && ! bodyless.count( &F ); }

static bool assumedNoThrow( const Function &F )
{
   if( F.doesNotThrow() ) return true;
   if( F.isIntrinsic() ) return true;
   const auto n = F.getName();
   // allocation failure is outside of the properties (see DESIGN.md)
   if( n == "_Znwm" || n == "_Znam" || n.starts_with( "_ZnwmSt11align" ) ) return true;
   // length/alloc helper exceptions of the standard library: resource exhaustion
   if( n.starts_with( "_ZSt" ) && n.contains( "__throw_bad_alloc" ) ) return true;
   if( n.contains( "__throw_bad_array_new_length" ) || n.contains( "__throw_length_error" ) ) return true;
   if( isDecl( F ) && ! n.starts_with( "_Z" ) && ! n.starts_with( "__cxa" ) ) return true; // C library
   return false;
}

static const Function *calleeOf( const CallBase &C )
{
   return dyn_cast< Function >( C.getCalledOperand()->stripPointerCasts() );
}

static bool vcallInfo( const CallBase &C, VCall &out );

static bool siteMayThrow( const CallBase &C )
{
   if( C.doesNotThrow() ) return false;
   if( auto *f = calleeOf( C ) )
   {
      if( assumedNoThrow( *f ) ) return false;
      if( isDecl( *f ) ) return true;
      return throwsSet.count( f ) != 0;
   }
   if( C.isInlineAsm() ) return false;
   VCall v;
   if( vcallInfo( C, v ) )
   {
      auto it = vtargets.find( { v.cls, v.off } );
      if( it == vtargets.end() || it->second.empty() ) return true;
      for( auto &n : it->second )
      {
         auto *f = C.getModule()->getFunction( n );
         if( ! f ) return true;
         if( n == "__cxa_pure_virtual" ) continue;
         if( assumedNoThrow( *f ) ) continue;
         if( isDecl( *f ) || throwsSet.count( f ) ) return true;
      }
      return false;
   }
   return true;
}

/** an invoke whose landing pad catches everything does not let it escape **/
static bool catchesAll( const InvokeInst &I )
{
   auto *lp = I.getLandingPadInst();
   for( unsigned i = 0; i < lp->getNumClauses(); i++ )
      if( lp->isCatch( i ) && isa< ConstantPointerNull >( lp->getClause( i ) ) ) return true;
   return false;
}

static void computeThrows( Module &M )
{
   bool ch = true;
   while( ch )
   {
      ch = false;
      for( auto &F : M )
      {
         if( isDecl( F ) || throwsSet.count( &F ) || assumedNoThrow( F ) ) continue;
         bool t = false;
         for( auto &I : instructions( F ) )
         {
            if( auto *c = dyn_cast< CallBase >( &I ) )
            {
               if( auto *inv = dyn_cast< InvokeInst >( c ) )
               {
                  if( catchesAll( *inv ) ) continue;
                  // a typed catch or a cleanup: the exception may continue
               }
               if( siteMayThrow( *c ) ) { t = true; break; }
            }
         }
         if( t ) { throwsSet.insert( &F ); ch = true; }
      }
   }
}

/** recognise a virtual call: fn = load (gep (vtable = load obj), off) **/
static const Value *vtableLoad( const Value *v, int64_t &off, const DataLayout &DL )
{
   off = 0;
   while( auto *g = dyn_cast< GEPOperator >( v ) )
   {
      APInt o( 64, 0 );
      if( ! g->accumulateConstantOffset( DL, o ) ) return nullptr;
      off += o.getSExtValue();
      v = g->getPointerOperand();
   }
   if( auto *l = dyn_cast< LoadInst >( v ) ) return l;
   return nullptr;
}

static bool vcallInfo( const CallBase &C, VCall &out )
{
   auto *l = dyn_cast< LoadInst >( C.getCalledOperand() );
   if( ! l ) return false;
   int64_t off;
   auto *vt = vtableLoad( l->getPointerOperand(), off, C.getModule()->getDataLayout() );
   if( ! vt ) return false;
   for( auto *u : vt->users() )
   {
      if( auto *ci = dyn_cast< CallInst >( u ) )
      {
         auto *f = ci->getCalledFunction();
         if( f && f->getIntrinsicID() == Intrinsic::type_test )
         {
            auto *md = cast< MetadataAsValue >( ci->getArgOperand( 1 ) )->getMetadata();
            if( auto *s = dyn_cast< MDString >( md ) )
            {
               out.cls = s->getString().str();
               out.off = off;
               return true;
            }
         }
      }
   }
   return false;
}

/** --------------------------------------------------------------- JSON **/
struct Emit
{
   Module &M;
   json::OStream &J;
   Emit( Module &m, json::OStream &j ) : M( m ), J( j ) {}
   DenseMap< const Value*, int > id;
   int next = 0;

   int idOf( const Value *v )
   {
      auto it = id.find( v );
      if( it != id.end() ) return it->second;
      return id[ v ] = next++;
   }

   void structName( const Instruction *I, StructType *s )
   {
      std::string n;
      if( I ) if( auto *md = I->getMetadata( "rf.type" ) ) n = cast< MDString >( md->getOperand( 0 ) )->getString().str();
      if( n.empty() && s->hasName() ) n = s->getName().str();
      J.attribute( "s", n );
   }

   void gepSteps( const GEPOperator &g )
   {
      const auto &DL = M.getDataLayout();
      J.attributeArray( "path", [&]
      {
         Type *cur = g.getSourceElementType();
         bool first = true;
         unsigned step = 0;
         auto *gi = dyn_cast< Instruction >( &g );
         auto *md = gi ? gi->getMetadata( "rf.path" ) : nullptr;
         auto str = [&]( unsigned k ) -> std::string {
            if( ! md || 3 * step + k >= md->getNumOperands() ) return "";
            return cast< MDString >( md->getOperand( 3 * step + k ) )->getString().str();
         };
         for( auto ix = g.idx_begin(); ix != g.idx_end(); ++ix )
         {
            const Value *v = *ix;
            if( first )
            {
               first = false;
               auto *c = dyn_cast< ConstantInt >( v );
               if( ! c || ! c->isZero() )
                  J.object( [&] {
                     J.attribute( "k", "idx" );
                     J.attribute( "sz", (int64_t) ( cur->isSized() ? DL.getTypeAllocSize( cur ).getFixedValue() : 0 ) );
                     if( auto *st = dyn_cast< StructType >( cur ) ) J.attribute( "s", st->hasName() ? st->getName() : "" );
                     J.attributeBegin( "v" ); op( v ); J.attributeEnd(); } );
               continue;
            }
            if( auto *st = dyn_cast< StructType >( cur ) )
            {
               const unsigned i = cast< ConstantInt >( v )->getZExtValue();
               std::string nm = str( 0 ), sn = str( 1 ), ft = str( 2 );
               step++;
               if( nm.empty() ) nm = "#" + std::to_string( i );
               if( sn.empty() && st->hasName() ) sn = st->getName().str();
               J.object( [&] { J.attribute( "k", "f" ); J.attribute( "n", nm ); J.attribute( "s", sn );
                               if( ! ft.empty() ) J.attribute( "t", ft ); } );
               cur = st->getElementType( i );
            }
            else if( auto *at = dyn_cast< ArrayType >( cur ) )
            {
               J.object( [&] {
                  J.attribute( "k", "arr" );
                  J.attribute( "sz", (int64_t) DL.getTypeAllocSize( at->getElementType() ).getFixedValue() );
                  J.attributeBegin( "v" ); op( v ); J.attributeEnd(); } );
               cur = at->getElementType();
            }
            else break;
         }
      } );
   }

   void op( const Value *v )
   {
      if( auto *c = dyn_cast< ConstantInt >( v ) )
      {
         J.object( [&] {
            if( c->getBitWidth() <= 64 ) J.attribute( "c", c->getBitWidth() == 1 ? (int64_t) c->getZExtValue() : c->getSExtValue() );
            else J.attribute( "c", toString( c->getValue(), 10, true ) );
            J.attribute( "w", (int64_t) c->getBitWidth() ); } );
         return;
      }
      if( isa< ConstantPointerNull >( v ) ) { J.object( [&] { J.attribute( "null", true ); } ); return; }
      if( isa< UndefValue >( v ) ) { J.object( [&] { J.attribute( "undef", true ); } ); return; }
      if( auto *f = dyn_cast< ConstantFP >( v ) )
      {
         SmallString< 32 > s; f->getValueAPF().toString( s );
         J.object( [&] { J.attribute( "fp", s.str() ); } ); return;
      }
      if( auto *f = dyn_cast< Function >( v ) ) { J.object( [&] { J.attribute( "fn", f->getName() ); } ); return; }
      if( auto *g = dyn_cast< GlobalVariable >( v ) )
      {
         J.object( [&] {
            J.attribute( "g", g->getName() );
            if( g->hasInitializer() && g->isConstant() )
               if( auto *cd = dyn_cast< ConstantDataArray >( g->getInitializer() ) )
                  if( cd->isCString() ) J.attribute( "str", json::fixUTF8( cd->getAsCString() ) );
         } );
         return;
      }
      if( auto *a = dyn_cast< GlobalAlias >( v ) ) { op( a->getAliasee() ); return; }
      if( auto *ce = dyn_cast< ConstantExpr >( v ) )
      {
         J.object( [&] {
            J.attribute( "ce", ce->getOpcodeName() );
            if( auto *g = dyn_cast< GEPOperator >( ce ) )
            {
               J.attributeBegin( "base" ); op( g->getPointerOperand() ); J.attributeEnd();
               gepSteps( *g );
            }
            else
               J.attributeArray( "a", [&] { for( auto &o : ce->operands() ) op( o ); } );
         } );
         return;
      }
      if( isa< Constant >( v ) )
      {
         std::string s; raw_string_ostream os( s ); v->printAsOperand( os, false );
         J.object( [&] { J.attribute( "const", json::fixUTF8( os.str() ) ); } ); return;
      }
      if( isa< MetadataAsValue >( v ) ) { J.object( [&] { J.attribute( "md", true ); } ); return; }
      if( isa< InlineAsm >( v ) ) { J.object( [&] { J.attribute( "asm", cast< InlineAsm >( v )->getAsmString() ); } ); return; }
      J.object( [&] { J.attribute( "v", idOf( v ) ); } );
   }

   void loc( const DebugLoc &L )
   {
      if( ! L ) return;
      J.attributeArray( "loc", [&] {
         for( const DILocation *l = L.get(); l; l = l->getInlinedAt() )
         {
            auto *sp = l->getScope()->getSubprogram();
            J.value( (int64_t) l->getLine() );
            J.value( sp ? ( sp->getLinkageName().empty() ? sp->getName() : sp->getLinkageName() ) : StringRef( "" ) );
         }
      } );
   }

   std::string tyName( Type *t )
   {
      if( t->isPointerTy() ) return "ptr";
      if( t->isVoidTy() ) return "void";
      std::string s; raw_string_ostream os( s ); t->print( os, false, true ); return os.str();
   }

   void inst( const Instruction &I )
   {
      J.object( [&] {
         J.attribute( "i", idOf( &I ) );
         J.attribute( "op", I.getOpcodeName() );
         J.attribute( "ty", tyName( I.getType() ) );
         loc( I.getDebugLoc() );
         if( auto *g = dyn_cast< GetElementPtrInst >( &I ) )
         {
            J.attributeBegin( "base" ); op( g->getPointerOperand() ); J.attributeEnd();
            gepSteps( *cast< GEPOperator >( g ) );
            return;
         }
         if( auto *c = dyn_cast< CallBase >( &I ) )
         {
            if( auto *f = calleeOf( *c ) ) J.attribute( "fn", f->getName() );
            else if( c->isInlineAsm() ) J.attribute( "asm", cast< InlineAsm >( c->getCalledOperand() )->getAsmString() );
            else
            {
               VCall v;
               if( vcallInfo( *c, v ) )
               {
                  J.attribute( "vcls", v.cls ); J.attribute( "voff", v.off );
                  J.attributeArray( "vt", [&] {
                     auto it = vtargets.find( { v.cls, v.off } );
                     if( it != vtargets.end() ) for( auto &n : it->second ) J.value( n );
                  } );
               }
               J.attributeBegin( "fv" ); op( c->getCalledOperand() ); J.attributeEnd();
            }
            J.attributeArray( "a", [&] { for( auto &o : c->args() ) op( o.get() ); } );
            if( c->hasStructRetAttr() ) J.attribute( "sret", true );
            if( siteMayThrow( *c ) ) J.attribute( "throws", true );
            if( c->doesNotReturn() ) J.attribute( "noret", true );
            if( auto *inv = dyn_cast< InvokeInst >( c ) )
            {
               J.attribute( "to", idOf( inv->getNormalDest() ) );
               J.attribute( "unwind", idOf( inv->getUnwindDest() ) );
            }
            return;
         }
         if( auto *p = dyn_cast< PHINode >( &I ) )
         {
            J.attributeArray( "in", [&] {
               for( unsigned i = 0; i < p->getNumIncomingValues(); i++ )
                  J.array( [&] { J.value( idOf( p->getIncomingBlock( i ) ) ); op( p->getIncomingValue( i ) ); } );
            } );
            return;
         }
         if( auto *b = dyn_cast< BranchInst >( &I ) )
         {
            if( b->isConditional() ) { J.attributeBegin( "cond" ); op( b->getCondition() ); J.attributeEnd(); }
            J.attributeArray( "succ", [&] { for( unsigned k = 0; k < b->getNumSuccessors(); k++ ) J.value( idOf( b->getSuccessor( k ) ) ); } );
            return;
         }
         if( auto *s = dyn_cast< SwitchInst >( &I ) )
         {
            J.attributeBegin( "cond" ); op( s->getCondition() ); J.attributeEnd();
            J.attribute( "default", idOf( s->getDefaultDest() ) );
            J.attributeArray( "cases", [&] {
               for( auto &c : s->cases() )
                  J.array( [&] { J.value( c.getCaseValue()->getSExtValue() ); J.value( idOf( c.getCaseSuccessor() ) ); } );
            } );
            return;
         }
         if( auto *c = dyn_cast< CmpInst >( &I ) ) J.attribute( "pred", CmpInst::getPredicateName( c->getPredicate() ) );
         if( auto *a = dyn_cast< AllocaInst >( &I ) )
         {
            if( auto *st = dyn_cast< StructType >( a->getAllocatedType() ) ) structName( &I, st );
            else J.attribute( "aty", tyName( a->getAllocatedType() ) );
         }
         if( auto *l = dyn_cast< LoadInst >( &I ) )
         {
            if( l->isVolatile() ) J.attribute( "vol", true );
            if( l->isAtomic() ) J.attribute( "ord", toIRString( l->getOrdering() ) );
         }
         if( auto *s = dyn_cast< StoreInst >( &I ) )
         {
            if( s->isVolatile() ) J.attribute( "vol", true );
            if( s->isAtomic() ) J.attribute( "ord", toIRString( s->getOrdering() ) );
            J.attribute( "vty", tyName( s->getValueOperand()->getType() ) );
         }
         if( auto *r = dyn_cast< AtomicRMWInst >( &I ) )
         {
            J.attribute( "rmw", AtomicRMWInst::getOperationName( r->getOperation() ) );
            J.attribute( "ord", toIRString( r->getOrdering() ) );
         }
         if( auto *f = dyn_cast< FenceInst >( &I ) ) J.attribute( "ord", toIRString( f->getOrdering() ) );
         if( auto *x = dyn_cast< ExtractValueInst >( &I ) )
            J.attributeArray( "ix", [&] { for( auto i : x->indices() ) J.value( (int64_t) i ); } );
         if( auto *x = dyn_cast< InsertValueInst >( &I ) )
            J.attributeArray( "ix", [&] { for( auto i : x->indices() ) J.value( (int64_t) i ); } );
         if( auto *lp = dyn_cast< LandingPadInst >( &I ) )
         {
            J.attribute( "cleanup", lp->isCleanup() );
            J.attributeArray( "catch", [&] {
               for( unsigned i = 0; i < lp->getNumClauses(); i++ )
                  if( lp->isCatch( i ) ) op( lp->getClause( i ) );
            } );
         }
         J.attributeArray( "a", [&] { for( auto &o : I.operands() ) { if( ! isa< BasicBlock >( o ) ) op( o ); } } );
      } );
   }

   void func( const Function &F )
   {
      id.clear(); next = 0;
      auto *sp = F.getSubprogram();
      J.object( [&] {
         J.attribute( "m", F.getName() );
         J.attribute( "d", dem( F.getName() ) );
         if( sp )
         {
            J.attribute( "file", normPath( pathOf( sp ) ) );
            J.attribute( "line", (int64_t) sp->getLine() );
            auto tys = sp->getType() ? sp->getType()->getTypeArray() : DITypeRefArray( nullptr );
            J.attributeArray( "sig", [&] { for( unsigned i = 0; i < tys.size(); i++ ) J.value( diTypeName( tys[ i ] ) ); } );
         }
         J.attribute( "ret", tyName( F.getReturnType() ) );
         if( throwsSet.count( &F ) ) J.attribute( "throws", true );
         // names of the arguments
         std::map< unsigned, std::string > an, at;
         for( auto &I : instructions( F ) )
            if( auto *d = dyn_cast< DbgVariableIntrinsic >( &I ) )
               if( d->getVariable()->getArg() && ! d->getDebugLoc()->getInlinedAt() )
                  if( auto *a = dyn_cast_or_null< Argument >( d->getVariableLocationOp( 0 ) ) )
                  {
                     an[ a->getArgNo() ] = d->getVariable()->getName().str();
                     at[ a->getArgNo() ] = diTypeName( d->getVariable()->getType() );
                  }
         J.attributeArray( "args", [&] {
            for( auto &a : F.args() )
               J.object( [&] {
                  J.attribute( "i", idOf( &a ) );
                  J.attribute( "n", an.count( a.getArgNo() ) ? an[ a.getArgNo() ] : "" );
                  J.attribute( "t", at.count( a.getArgNo() ) ? at[ a.getArgNo() ] : "" );
                  J.attribute( "ty", tyName( a.getType() ) );
                  if( a.hasStructRetAttr() ) J.attribute( "sret", true );
               } );
         } );
         // names of local variables for values
         J.attributeArray( "vars", [&] {
            std::set< std::pair< int, std::string > > seen;
            for( auto &I : instructions( F ) )
               if( auto *d = dyn_cast< DbgVariableIntrinsic >( &I ) )
               {
                  auto *v = d->getVariableLocationOp( 0 );
                  if( ! v || isa< Constant >( v ) || ! ( isa< Instruction >( v ) || isa< Argument >( v ) ) ) continue;
                  const auto n = d->getVariable()->getName().str();
                  if( ! seen.insert( { idOf( v ), n } ).second ) continue;
                  J.array( [&] { J.value( idOf( v ) ); J.value( n ); J.value( diTypeName( d->getVariable()->getType() ) );
                                 J.value( isa< DbgDeclareInst >( d ) ); } );
               }
         } );
         J.attributeArray( "b", [&] {
            for( auto &B : F )
               J.object( [&] {
                  J.attribute( "i", idOf( &B ) );
                  J.attributeArray( "x", [&] {
                     for( auto &I : B ) { if( isa< DbgInfoIntrinsic >( &I ) ) continue; inst( I ); }
                  } );
               } );
         } );
      } );
   }
};

/** fold instructions to constants or existing values; zero-offset address
 *  computations stay, they name the member that is accessed **/
struct FoldPass : PassInfoMixin< FoldPass >
{
   PreservedAnalyses run( Function &F, FunctionAnalysisManager & )
   {
      bool any = false, ch = true;
      SimplifyQuery q( F.getParent()->getDataLayout() );
      while( ch )
      {
         ch = false;
         for( auto &I : make_early_inc_range( instructions( F ) ) )
         {
            if( isa< GetElementPtrInst >( I ) || I.use_empty() ) continue;
            if( auto *v = simplifyInstruction( &I, q ) )
               if( v != &I ) { I.replaceAllUsesWith( v ); ch = any = true; }
         }
      }
      return any ? PreservedAnalyses::none() : PreservedAnalyses::all();
   }
};

int main( int argc, char **argv )
{
   if( argc < 5 ) { errs() << "usage: irdump PROFILE OUT PREFIXES in.bc...\n"; return 2; }
   {
      std::ifstream in( argv[ 1 ] );
      if( ! in ) { errs() << "no profile\n"; return 2; }
      std::string l;
      while( std::getline( in, l ) )
      {
         if( l.rfind( "keep ", 0 ) == 0 ) keepRe.emplace_back( "^(" + l.substr( 5 ) + ")$" );
         if( l.rfind( "root ", 0 ) == 0 ) rootRe.emplace_back( "^(" + l.substr( 5 ) + ")$" );
         if( l.rfind( "inline ", 0 ) == 0 ) inlineRe.emplace_back( "^(" + l.substr( 7 ) + ")$" );
      }
      StringRef p( argv[ 3 ] );
      SmallVector< StringRef, 4 > ps;
      p.split( ps, ':' );
      for( auto x : ps ) prefixes.push_back( x.str() );
   }
   LLVMContext C;
   C.setDiscardValueNames( false );
   SMDiagnostic err;
   auto M = std::make_unique< Module >( "all", C );
   Linker L( *M );
   for( int i = 4; i < argc; i++ )
   {
      auto m = parseIRFile( argv[ i ], err, C );
      if( ! m ) { err.print( "irdump", errs() ); return 2; }
      if( i == 4 ) { M->setDataLayout( m->getDataLayout() ); M->setTargetTriple( m->getTargetTriple() ); }
      annotate( *m );
      if( L.linkInModule( std::move( m ) ) ) { errs() << "link failed\n"; return 2; }
   }
   // constructors and destructors that share one body are reached through aliases
   for( auto &A : M->aliases() )
      if( auto *g = dyn_cast< Function >( A.getAliasee()->stripPointerCasts() ) )
         if( g->getType() == A.getType() ) A.replaceAllUsesWith( g );
   collectVtables( *M );
   // recursion: never inline functions that can reach themselves directly
   std::set< Function* > proj;
   std::map< const Function*, std::string > qn;
   for( auto &F : *M )
   {
      if( F.isDeclaration() ) continue;
      qn[ &F ] = strip( dem( F.getName() ) );
      const bool p = isProject( F );
      if( p ) proj.insert( &F );
      F.removeFnAttr( Attribute::NoInline );
      F.removeFnAttr( Attribute::AlwaysInline );
      F.removeFnAttr( Attribute::OptimizeNone );
      const bool keep = matches( keepRe, qn[ &F ] );
      const bool inl  = ( p && ! keep ) || ( ! p && matches( inlineRe, qn[ &F ] ) );
      if( inl ) F.addFnAttr( Attribute::AlwaysInline );
      else      F.addFnAttr( Attribute::NoInline );
   }
   // what only the standard library calls (bodies of function objects) stays a function of its own
   for( auto *F : proj )
   {
      if( ! F->hasFnAttribute( Attribute::AlwaysInline ) ) continue;
      bool any = false, all = true;
      for( auto *U : F->users() )
         if( auto *c = dyn_cast< CallBase >( U ) )
         {
            auto *g = c->getFunction();
            any = true;
            if( proj.count( g ) || g->hasFnAttribute( Attribute::AlwaysInline ) ) all = false;
         }
      if( any && all ) { F->removeFnAttr( Attribute::AlwaysInline ); F->addFnAttr( Attribute::NoInline ); }
   }
   // direct recursion through project functions
   for( auto *F : proj )
   {
      std::set< const Function* > seen; std::vector< const Function* > st{ F }; bool rec = false;
      while( ! st.empty() && ! rec )
      {
         auto *f = st.back(); st.pop_back();
         for( auto &I : instructions( *f ) )
            if( auto *c = dyn_cast< CallBase >( &I ) )
               if( auto *g = calleeOf( *c ) )
               {
                  if( g == F ) { rec = true; break; }
                  if( ! g->isDeclaration() && g->hasFnAttribute( Attribute::AlwaysInline ) && seen.insert( g ).second ) st.push_back( g );
               }
      }
      if( rec ) { F->removeFnAttr( Attribute::AlwaysInline ); F->addFnAttr( Attribute::NoInline ); }
   }
   computeThrows( *M );
   {
      std::vector< Function* > st;
      for( auto *F : proj )
         if( rootRe.empty() || matches( rootRe, qn[ F ] ) ) { emitted.insert( F ); st.push_back( F ); }
      std::set< const Function* > need( emitted );
      while( ! st.empty() )
      {
         auto *f = st.back(); st.pop_back();
         for( auto &I : instructions( *f ) )
            if( auto *c = dyn_cast< CallBase >( &I ) )
               if( auto *g = calleeOf( *c ) )
                  if( ! g->isDeclaration() && g->hasFnAttribute( Attribute::AlwaysInline ) && need.insert( g ).second )
                     st.push_back( const_cast< Function* >( g ) );
      }
      if( ! rootRe.empty() )
         for( auto &F : *M )
            if( ! F.isDeclaration() && ! need.count( &F ) )
            {
               bodyless.insert( &F );
               auto *sp = F.getSubprogram();
               F.deleteBody(); F.setComdat( nullptr );
               F.setSubprogram( sp );
            }
   }

   PassBuilder PB;
   LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
   PB.registerModuleAnalyses( MAM ); PB.registerCGSCCAnalyses( CAM ); PB.registerFunctionAnalyses( FAM ); PB.registerLoopAnalyses( LAM );
   PB.crossRegisterProxies( LAM, FAM, CAM, MAM );
   SimplifyCFGOptions sc;
   sc.convertSwitchRangeToICmp( false ).hoistCommonInsts( false ).sinkCommonInsts( false )
                .speculateBlocks( false ).setSimplifyCondBranch( true ).bonusInstThreshold( 0 );
   for( int round = 0; round < 2; round++ )
   {
      FunctionPassManager FPM;
      FPM.addPass( SROAPass( SROAOptions::PreserveCFG ) );
      if( round == 1 )
      {
         FPM.addPass( SCCPPass() );
         FPM.addPass( FoldPass() );
         FPM.addPass( SimplifyCFGPass( sc ) );
         FPM.addPass( SROAPass( SROAOptions::PreserveCFG ) );
         FPM.addPass( SCCPPass() );
         FPM.addPass( SimplifyCFGPass( sc ) );
      }
      for( auto &F : *M )
      {
         if( F.isDeclaration() ) continue;
         const bool want = proj.count( &F ) || F.hasFnAttribute( Attribute::AlwaysInline );
         if( want ) FPM.run( F, FAM );
      }
      if( round == 0 )
      {
         MAM.clear(); 
         const auto kept = hideFirstMembers( *M );
         AlwaysInlinerPass( false ).run( *M, MAM );
         showFirstMembers( kept );
         FAM.clear(); MAM.clear();
      }
   }

   std::error_code ec;
   raw_fd_ostream os( argv[ 2 ], ec );
   if( ec ) { errs() << ec.message() << "\n"; return 2; }
   json::OStream J( os );
   Emit E( *M, J );
   J.object( [&] {
      J.attributeArray( "functions", [&] {
         for( auto &F : *M ) if( emitted.count( &F ) ) { E.func( F ); }
      } );
      J.attributeObject( "names", [&] {
         for( auto &F : *M )
         {
            const auto d = dem( F.getName() );
            J.attributeObject( F.getName(), [&] {
               J.attribute( "d", json::fixUTF8( d ) ); J.attribute( "q", json::fixUTF8( strip( d ) ) );
               if( F.isDeclaration() && ! bodyless.count( &F ) ) J.attribute( "decl", true );
               if( throwsSet.count( &F ) || ( F.isDeclaration() && ! bodyless.count( &F ) && ! assumedNoThrow( F ) ) ) J.attribute( "throws", true );
               if( proj.count( &F ) ) J.attribute( "proj", true );
               if( auto *sp = F.getSubprogram() ) { J.attribute( "line", (int64_t) sp->getLine() ); J.attribute( "file", normPath( pathOf( sp ) ) ); }
            } );
         }
      } );
   } );
   os << "\n";
   return 0;
}
