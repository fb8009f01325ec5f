// C24: names of objects of every kind.
#include "smp.h"
#include <Smp/AccessKind.h>
#include <Smp/IOperation.h>
#include <Smp/IParameter.h>
#include <Smp/InvalidObjectName.h>
#include <Smp/Publication/IPublishOperation.h>
#include <Smp/Publication/ITypeRegistry.h>
#include <Xsmp/Aggregate.h>
#include <Xsmp/Collection.h>
#include <Xsmp/EntryPointPublisher.h>
#include <Xsmp/EventConsumer.h>
#include <Xsmp/EventProvider.h>
#include <Xsmp/EventSink.h>
#include <Xsmp/EventSource.h>
#include <Xsmp/Factory.h>
#include <Xsmp/FallibleModel.h>
#include <Xsmp/Field.h>
#include <Xsmp/Helper.h>
#include <Xsmp/Object.h>
#include <Xsmp/Publication/Publication.h>
#include <Xsmp/Reference.h>
#include <Xsmp/Simulator.h>
#include <memory>

struct Node : Xsmp::Model,
              virtual Xsmp::Composite,
              virtual Xsmp::Aggregate,
              virtual Xsmp::EntryPointPublisher,
              virtual Xsmp::EventProvider,
              virtual Xsmp::EventConsumer,
              virtual Xsmp::FallibleModel {
  using Model::Model;
};
struct Plain : Xsmp::Model {
  using Model::Model;
  const Smp::Uuid &GetUuid() const override { return Smp::Uuids::Uuid_Int32; }
};
static std::unique_ptr<Xsmp::Simulator> sim;
static std::unique_ptr<Node> node;
static std::unique_ptr<Xsmp::Publication::Publication> pub;
static unsigned long long count;

static void reset() {
  pub.reset();
  node.reset();
  sim = std::make_unique<Xsmp::Simulator>("s");
  node = std::make_unique<Node>("n", "", sim.get(), sim.get());
  pub = std::make_unique<Xsmp::Publication::Publication>(
      node.get(), sim->GetTypeRegistry());
  node->Publish(pub.get());
}
// what the parents show
static std::vector<size_t> seen() {
  return {node->GetEntryPoints()->size(), node->GetEventSources()->size(),
          node->GetEventSinks()->size(),  node->GetFailures()->size(),
          node->GetContainers()->size(),  node->GetReferences()->size(),
          node->GetFields()->size(),      node->GetOperations()->size(),
          node->GetProperties()->size()};
}
template <class T> static void same(const T &o, const char *n) {
  const std::string d = "about it";
  if (std::string(n) != o.GetName() || o.GetDescription() != d)
    throw std::logic_error("another name");
}
static void make(const std::string &k, const char *n) {
  const char *d = "about it";
  auto *types = sim->GetTypeRegistry();
  const auto view = Smp::ViewKind::VK_All;
  auto *self = node.get();
  if (k == "object")
    same(Xsmp::Object(n, d), n);
  else if (k == "check") {
    if (std::string(Xsmp::Helper::checkName(n, self).c_str()) != n)
      throw std::logic_error("another name");
  } else if (k == "component")
    same(Plain(n, d, sim.get(), sim.get()), n);
  else if (k == "service")
    same(vm::QuietLogger(n, d, sim.get(), sim.get()), n);
  else if (k == "simulator")
    same(Xsmp::Simulator(n, d), n);
  else if (k == "entrypoint")
    same(Xsmp::EntryPoint(n, d, static_cast<Xsmp::EntryPointPublisher *>(self),
                          [] {}),
         n);
  else if (k == "source")
    same(Xsmp::EventSource<void>(n, d, self), n);
  else if (k == "sink")
    same(Xsmp::EventSink<void>(n, d, self, [](Smp::IObject *) {}), n);
  else if (k == "container")
    same(Xsmp::Container<Smp::IModel>(n, d, self, 0, -1), n);
  else if (k == "reference")
    same(Xsmp::Reference<Smp::IModel>(n, d, self, 0, -1), n);
  else if (k == "failure")
    same(Xsmp::Field<bool>::failure(types, Smp::Uuids::Uuid_Bool, n, d, self,
                                    view),
         n);
  else if (k == "field")
    same(Xsmp::Field<bool>(types, Smp::Uuids::Uuid_Bool, n, d, self, view), n);
  else if (k == "collection")
    same(Xsmp::Collection<Smp::IObject>(n, d, self), n);
  else if (k == "factory") {
    std::unique_ptr<Smp::IFactory> f(Xsmp::Factory::Create<Plain>(
        n, d, sim.get(), Smp::Uuids::Uuid_Int32));
    same(*f, n);
  } else if (k == "instance") {
    std::unique_ptr<Smp::IFactory> f(Xsmp::Factory::Create<Plain>(
        "f", d, sim.get(), Smp::Uuids::Uuid_Int32));
    std::unique_ptr<Smp::IComponent> c(f->CreateInstance(n, d, sim.get()));
    same(*c, n);
  } else if (k == "type")
    same(*types->AddEnumerationType(
             n, d, Smp::Uuid(0x1234, 0x1234, 0x1, 0x2, ++count), 4),
         n);
  else { // published: in a component of its own
    Xsmp::Publication::Publication p(self, types);
    if (k == "pubfield") {
      static int x;
      p.PublishField(n, d, &x, view, true, false, false);
      if (p.GetFields()->size() != 1)
        throw std::logic_error("not published");
      same(*p.GetFields()->at(static_cast<size_t>(0)), n);
    } else if (k == "property") {
      p.PublishProperty(n, d, Smp::Uuids::Uuid_Int32,
                        Smp::AccessKind::AK_ReadWrite, view);
      same(*p.GetProperties()->at(static_cast<size_t>(0)), n);
    } else if (k == "operation") {
      p.PublishOperation(n, d, view);
      same(*p.GetOperations()->at(static_cast<size_t>(0)), n);
    } else if (k == "parameter") {
      p.PublishOperation("op", d, view)
          ->PublishParameter(n, d, Smp::Uuids::Uuid_Int32);
      same(*p.GetOperations()->at("op")->GetParameters()->at(
               static_cast<size_t>(0)),
           n);
    } else if (k == "structure") {
      p.PublishStructure(n, d, view, true);
      same(*p.GetFields()->at(static_cast<size_t>(0)), n);
    } else {
      std::fprintf(stderr, "unknown kind %s\n", k.c_str());
      std::exit(3);
    }
  }
}
static std::string one(const std::string &k, const char *n) {
  const auto before = seen();
  std::string r;
  try {
    make(k, n);
    r = "ok";
  } catch (const Smp::InvalidObjectName &e) {
    r = e.GetName();
    // the exception tells which name
    const auto *i = e.GetInvalidName();
    if (n && (!i || std::string(i) != n))
      r = "another name refused";
    if (seen() != before)
      r = "the parent changed";
  } catch (const Smp::Exception &e) {
    r = e.GetName();
  } catch (const std::exception &e) {
    r = std::string("std:") + e.what();
  }
  return r;
}
static std::string exec(const vh::Op &o) {
  std::vector<std::string> rs;
  if (o.name == "null")
    rs.push_back(one(o.s("k"), nullptr));
  else
    for (auto &x : o.strs("hex")) {
      std::string n;
      for (size_t i = 1; i + 1 < x.size(); i += 2)
        n += static_cast<char>(std::stoi(x.substr(i, 2), nullptr, 16));
      rs.push_back(one(o.s("k"), n.c_str()));
      reset();
    }
  return vh::ok(vh::jstrs(rs));
}
int main() { return vh::drive(reset, exec, [] { pub.reset(); node.reset(); }); }
