PROPERTY="C11"
EDITS=[("include/dlaf/common/round_robin.h","  RoundRobin(RoundRobin&&) = default;","  RoundRobin(RoundRobin&& other) : pool_(std::move(other.pool_)) {}"),]
NEEDS="a pool moved after it was advanced"
BREAKS="the moved pool restarts from its first resource"
DEMO='''#include <string>
#include <utility>
#include <dlaf/common/round_robin.h>
#include <cstdio>
int main(){ dlaf::common::RoundRobin<std::string> p(3,std::string("a")); p.currentResource()="0"; p.nextResource()="1"; p.nextResource()="2"; p.nextResource(); p.nextResource();
 auto q=std::move(p); auto s=q.currentResource(); std::printf("%s\\n",s.c_str()); return s=="1"?0:1; }
'''
