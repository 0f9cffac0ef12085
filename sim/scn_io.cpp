// P18: loading robots and collision pairs from storage that fails.
// Robot descriptions (random trees, URDF and MJCF) live in a simulated file system; files fail to open, fail to read half way, come in
// short or interrupted reads, or lost their end. A load either throws or yields exactly what the file says; a failed
// load_collision_pairs() leaves the robot as it was; nothing stays open; once the fault is gone the load succeeds.
#include "core.h"
#include "robots.h"
#include "seam_io.h"
#include "pinocchio/parsers/urdf.hpp"
#include "pinocchio/parsers/mjcf.hpp"
#include <iostream>
#include <memory>

using namespace sim;
using placo::model::RobotWrapper;
using robots::Vector3d;
using robots::VectorXd;
using pinocchio::SE3;
using Pair = std::pair<int, int>;

namespace
{
struct Desc
{
  struct Link
  {
    std::string name;
    double mass, com[3];
    int ncoll, nvis;
    std::vector<double> radius;
  };
  struct Joint
  {
    std::string name, type;
    int parent;
    double xyz[3], lo, hi, vel, eff;
    bool unlimited;
  };
  std::vector<Link> links;
  std::vector<Joint> joints;  // joint k carries link k+1
};

static Desc random_desc(Rng& r)
{
  Desc d;
  int n = r.between(2, 7);
  for (int i = 0; i < n; i++)
  {
    Desc::Link l;
    l.name = (r.chance(0.2) ? "part " : "link") + std::to_string(i);
    l.mass = r.uni(0.1, 3);
    for (auto& x : l.com)
      x = r.uni(-0.1, 0.1);
    l.ncoll = r.range(3);
    if (i == 0)
      l.ncoll = 1;
    l.nvis = r.range(3);
    for (int k = 0; k < l.ncoll; k++)
      l.radius.push_back(r.uni(0.02, 0.1));
    d.links.push_back(l);
    if (i == 0)
      continue;
    Desc::Joint j;
    j.name = "joint" + std::to_string(i) + (r.chance(0.3) ? "_pitch" : "");
    j.type = r.pick(std::vector<std::string>{ "revolute", "revolute", "revolute", "prismatic", "fixed" });
    j.parent = r.range(i);
    for (auto& x : j.xyz)
      x = r.uni(-0.4, 0.4);
    j.unlimited = r.chance(0.2);
    j.lo = j.unlimited ? 0 : (r.chance(0.1) ? 0 : -r.uni(0.1, 2));
    j.hi = j.unlimited ? 0 : r.uni(0.1, 2);
    j.vel = r.uni(0.1, 9);
    j.eff = r.uni(0.1, 50);
    d.joints.push_back(j);
  }
  return d;
}

static std::string to_urdf(const Desc& d)
{
  std::string s = "<?xml version=\"1.0\"?>\n<robot name=\"r\">\n";
  for (auto& l : d.links)
  {
    s += fmt("<link name=\"%s\">\n  <inertial><origin xyz=\"%.9g %.9g %.9g\" rpy=\"0 0 0\"/><mass value=\"%.9g\"/>"
             "<inertia ixx=\"0.01\" ixy=\"0\" ixz=\"0\" iyy=\"0.012\" iyz=\"0\" izz=\"0.009\"/></inertial>\n",
             l.name.c_str(), l.com[0], l.com[1], l.com[2], l.mass);
    for (int k = 0; k < l.ncoll; k++)
      s += fmt("  <collision><origin xyz=\"0 0 %g\" rpy=\"0 0 0\"/><geometry><sphere radius=\"%.9g\"/></geometry></collision>\n", 0.05 * k, l.radius[k]);
    for (int k = 0; k < l.nvis; k++)
      s += "  <visual><geometry><box size=\"0.1 0.1 0.1\"/></geometry></visual>\n";
    s += "</link>\n";
  }
  for (size_t k = 0; k < d.joints.size(); k++)
  {
    auto& j = d.joints[k];
    s += fmt("<joint name=\"%s\" type=\"%s\">\n  <parent link=\"%s\"/><child link=\"%s\"/><origin xyz=\"%.9g %.9g %.9g\" rpy=\"0 0 0\"/>\n", j.name.c_str(),
             j.type.c_str(), d.links[j.parent].name.c_str(), d.links[k + 1].name.c_str(), j.xyz[0], j.xyz[1], j.xyz[2]);
    if (j.type != "fixed")
      s += fmt("  <axis xyz=\"0 1 0\"/><limit lower=\"%.9g\" upper=\"%.9g\" velocity=\"%.9g\" effort=\"%.9g\"/>\n", j.lo, j.hi, j.vel, j.eff);
    s += "</joint>\n";
  }
  return s + "</robot>\n";
}

static std::string mjcf_children(const Desc& d, int link)
{
  std::string s;
  for (size_t k = 0; k < d.joints.size(); k++)
  {
    auto& j = d.joints[k];
    auto& l = d.links[k + 1];
    if (j.parent != link)
      continue;
    s += fmt("<body name=\"%s\" pos=\"%.9g %.9g %.9g\">\n", l.name.c_str(), j.xyz[0], j.xyz[1], j.xyz[2]);
    if (j.type != "fixed")
      s += fmt("<joint name=\"%s\" type=\"%s\" axis=\"0 1 0\" limited=\"true\" range=\"%.9g %.9g\"/>\n", j.name.c_str(), j.type == "revolute" ? "hinge" : "slide", j.lo, j.hi);
    s += fmt("<inertial pos=\"%.9g %.9g %.9g\" mass=\"%.9g\" diaginertia=\"0.01 0.012 0.009\"/>\n", l.com[0], l.com[1], l.com[2], l.mass);
    for (int i = 0; i < l.ncoll; i++)
      s += fmt("<geom name=\"g%zu_%d\" type=\"sphere\" size=\"%.9g\"/>\n", k + 1, i, l.radius[i]);
    s += mjcf_children(d, (int)k + 1) + "</body>\n";
  }
  return s;
}
static std::string to_mjcf(const Desc& d, const std::string& root)
{
  auto& l = d.links[0];
  return "<mujoco model=\"r\">\n<compiler angle=\"radian\"/>\n<worldbody>\n<body name=\"" + l.name + "\" pos=\"0.1 0 0.3\">\n" +
         (root == "" ? "" : "<freejoint name=\"" + root + "\"/>\n") +
         fmt("<inertial pos=\"%.9g %.9g %.9g\" mass=\"%.9g\" diaginertia=\"0.01 0.012 0.009\"/>\n<geom name=\"g0\" type=\"sphere\" size=\"%.9g\"/>\n", l.com[0],
             l.com[1], l.com[2], l.mass, l.radius[0]) +
         mjcf_children(d, 0) + "</body>\n</worldbody>\n</mujoco>\n";
}

struct Json_
{
  std::string text;
  bool valid = true;
  std::vector<Pair> pairs;
};

struct Load : Scenario
{
  Plan generate(uint64_t seed, bool thorough) override
  {
    Rng r(seed);
    Plan p;
    p.config = r.next();
    int n = r.between(2, thorough ? 24 : 12);
    double pf = r.chance(0.7) ? 0.5 : 0;
    std::vector<std::string> faults = { "enoent", "eacces", "emfile", "eio-read", "eintr", "short-read", "truncated", "stat-eio" };
    for (int i = 0; i < n; i++)
    {
      Event e;
      e.kind = r.pick(std::vector<std::string>{ "load", "load", "content", "mjcf", "pairs", "pairs", "pairs" });
      e.sub = r.next();
      if (r.chance(pf))
        e.fault = r.pick(faults);
      p.ev.push_back(e);
    }
    return p;
  }

  struct W
  {
    std::unique_ptr<RobotWrapper> robot;
    std::unique_ptr<pinocchio::GeometryModel> geom;  // what the files describe
    std::vector<Pair> pairs;
    pinocchio::Model m;
  };

  static bool add(std::vector<Pair>& v, int a, int b)
  {
    for (auto& p : v)
      if ((p.first == a && p.second == b) || (p.first == b && p.second == a))
        return false;
    v.push_back({ a, b });
    return true;
  }
  static std::vector<Pair> all_pairs(const pinocchio::GeometryModel& g)
  {
    std::vector<Pair> v;
    for (size_t i = 0; i < g.geometryObjects.size(); i++)
      for (size_t j = i + 1; j < g.geometryObjects.size(); j++)
        if (g.geometryObjects[i].parentJoint != g.geometryObjects[j].parentJoint)
          v.push_back({ (int)i, (int)j });
    return v;
  }
  // a random list of pairs, by body names or object indices, sometimes invalid at some entry
  static Json_ random_json(Rng& r, const pinocchio::Model& m, const pinocchio::GeometryModel& g)
  {
    Json_ j;
    int ng = (int)g.geometryObjects.size(), n = r.between(0, 6), bad = r.chance(0.3) ? r.range(n + 1) : -1;
    j.text = r.chance(0.5) ? "[\n" : "[";
    bool sep = false;
    for (int i = 0; i < n; i++)
    {
      std::string e;
      if (i == bad)
      {
        e = r.pick(std::vector<std::string>{ "[\"nobody\", \"nothing\"]", "[99, 1]", "[-1, 0]", "[0, 0]", "[\"nobody\", 1]", "[true, false]", "[1.5, 0]", "[0, 1" });
        j.valid = false;
      }
      else if (r.chance(0.5))
      {
        int a = r.range(ng), b = r.range(ng);
        if (a == b)
          continue;
        e = fmt("[%d, %d]", a, b);
        add(j.pairs, a, b);
      }
      else
      {
        int a = r.range(ng), b = r.range(ng);
        auto fa = g.geometryObjects[a].parentFrame, fb = g.geometryObjects[b].parentFrame;
        if (fa == fb)
          continue;
        e = "[\"" + m.frames[fa].name + "\",\"" + m.frames[fb].name + "\"]";
        for (int x = 0; x < ng; x++)
          for (int y = 0; y < ng; y++)
            if (g.geometryObjects[x].parentFrame == fa && g.geometryObjects[y].parentFrame == fb)
              add(j.pairs, x, y);
      }
      j.text += (sep ? ",\n " : " ") + e;
      sep = true;
    }
    j.text += "\n]\n";
    if (j.valid && r.chance(0.05))
    {
      j.text = r.pick(std::vector<std::string>{ "", "[", "nonsense", "[[0, 1]" });
      j.valid = false;
    }
    return j;
  }
  static std::string show(const std::vector<Pair>& v)
  {
    std::string s;
    for (auto& p : v)
      s += fmt("(%d,%d)", p.first, p.second);
    return s;
  }
  void check_pairs(W& w, Ctx& ctx, const char* cls, const std::string& when)
  {
    std::vector<Pair> got;
    for (auto& c : w.robot->collision_model.collisionPairs)
      got.push_back({ (int)c.first, (int)c.second });
    bool ok = got.size() == w.pairs.size();
    for (size_t i = 0; ok && i < got.size(); i++)
      ok = got[i] == w.pairs[i] || got[i] == Pair(w.pairs[i].second, w.pairs[i].first);
    if (!ok && got.size() == w.pairs.size())
    {  // any order
      std::vector<Pair> rest = w.pairs;
      ok = true;
      for (auto& p : got)
        ok = ok && !add(rest, p.first, p.second);
    }
    ctx.checkf(ok, cls, [&] { return when + " the collision pairs are " + show(got) + " instead of " + show(w.pairs); });
    ctx.check(w.robot->distances().size() == w.pairs.size(), cls, when + " distances() does not cover the collision pairs");
    ctx.mix(got.size());
  }
  void check_geoms(Ctx& ctx, const pinocchio::GeometryModel& got, const pinocchio::GeometryModel& want, const std::string& what)
  {
    ctx.checkf(got.geometryObjects.size() == want.geometryObjects.size(), "geometry",
               [&] { return fmt("the %s model has %zu objects, the file describes %zu", what.c_str(), got.geometryObjects.size(), want.geometryObjects.size()); });
    for (size_t i = 0; i < want.geometryObjects.size(); i++)
    {
      auto &a = got.geometryObjects[i], &b = want.geometryObjects[i];
      ctx.check(a.name == b.name && a.parentJoint == b.parentJoint && a.parentFrame == b.parentFrame && a.placement.isApprox(b.placement, 1e-12) &&
                    *a.geometry == *b.geometry,
                "geometry", "an object of the " + what + " model is not the one of the file");
    }
  }
  // the robot against the description it was written from
  void check_robot(W& w, Ctx& ctx, const Desc& d, bool mjcf, const pinocchio::GeometryModel& vis)
  {
    RobotWrapper& b = *w.robot;
    auto& m = b.model;
    double mass = 0;
    for (auto& l : d.links)
      mass += l.mass;
    ctx.checkf(std::fabs(b.total_mass() - mass) < 1e-6, "model", [&] { return fmt("the robot weighs %g, its file says %g", b.total_mass(), mass); });
    int moving = 0;
    auto names = b.joint_names();
    for (auto& j : d.joints)
    {
      if (j.type == "fixed")
        continue;
      moving++;
      ctx.check(std::count(names.begin(), names.end(), j.name) == 1, "joint-names", "joint " + j.name + " is not listed once");
      int q = b.get_joint_offset(j.name), v = b.get_joint_v_offset(j.name);
      auto lim = b.get_joint_limits(j.name);
      double lo = j.unlimited ? std::numeric_limits<double>::lowest() : j.lo, hi = j.unlimited ? std::numeric_limits<double>::max() : j.hi;
      ctx.checkf((lim.first == lo || std::fabs(lim.first - lo) < 1e-6) && (lim.second == hi || std::fabs(lim.second - hi) < 1e-6), "limits", [&] {
        return fmt("joint %s has limits [%g, %g], its file says [%g, %g]%s", j.name.c_str(), lim.first, lim.second, j.lo, j.hi, j.unlimited ? " (unlimited)" : "");
      });
      if (!mjcf)
        ctx.check(std::fabs(m.velocityLimit[v] - j.vel) < 1e-6 && std::fabs(m.effortLimit[v] - j.eff) < 1e-6, "limits",
                  "the velocity or torque limit of " + j.name + " is not the one of the file");
      ctx.check(q >= 7 && q < m.nq && v >= 6 && v < m.nv, "model", "joint " + j.name + " is outside the state");
    }
    ctx.checkf((int)names.size() == moving, "joint-names", [&] {
      std::string s;
      for (auto& n : names)
        s += n + " ";
      return fmt("the robot lists %zu joints (%s), its file has %d", names.size(), s.c_str(), moving);
    });
    ctx.check(m.nq == 7 + moving && m.nv == 6 + moving, "model", "the state has not the size of a floating base and the joints");
    // what pinocchio itself reads in the intact text
    ctx.check(m.names == w.m.names && m.nframes == w.m.nframes, "model", "joints or frames are missing");
    for (int j = 1; j < m.njoints; j++)
      ctx.check(m.jointPlacements[j].isApprox(w.m.jointPlacements[j], 1e-12) && m.inertias[j].isApprox(w.m.inertias[j], 1e-12) && m.parents[j] == w.m.parents[j], "model",
                "a joint's placement, parent or inertia is not the one of the file");
    check_geoms(ctx, b.collision_model, *w.geom, "collision");
    check_geoms(ctx, b.visual_model, vis, "visual");
    // at rest in the neutral configuration, kinematics up to date
    ctx.check(b.state.q == pinocchio::neutral(w.m) && b.state.qd == VectorXd::Zero(m.nv) && b.state.qdd == VectorXd::Zero(m.nv), "initial-state",
              "a robot just loaded is not in its neutral state");
    robots::Ref ref(w.m);
    ref.set(b.state.q);
    for (int f = 1; f < m.nframes; f++)
      ctx.check((b.get_T_world_frame((RobotWrapper::FrameIndex)f).matrix() - ref.d.oMf[f].toHomogeneousMatrix()).cwiseAbs().maxCoeff() < 1e-12, "initial-state",
                "a robot just loaded does not have its frames in place");
    ctx.hit("loaded");
  }

  void run(const Plan& plan, Ctx& ctx) override
  {
    Rng c(plan.config);
    std::cout.setstate(std::ios::failbit);
    std::cerr.setstate(std::ios::failbit);
    mem::begin(mem::random_env(c));
    io::reset();
    W w;
    int serial = 0;
    for (auto& ev : plan.ev)
    {
      Rng r(ev.sub);
      ctx.steps++;
      ctx.log("%s %s", ev.kind.c_str(), ev.fault.c_str());
      serial++;
      io::Kind fk = io::kind_from(ev.fault);
      bool benign = fk == io::None || fk == io::EIntr || fk == io::Short;
      if (ev.kind == "pairs")
      {
        if (!w.robot)
          continue;
        Json_ j = random_json(r, w.m, *w.geom);
        std::string path = fmt("/simfs/pairs%d.json", serial);
        bool missing = r.chance(0.1);
        if (!missing)
          io::put(path, j.text);
        auto before = w.pairs;
        if (fk != io::None && fk != io::StatFails)
          io::arm(fk, path, 1, fk == io::Short ? r.range(1000) : r.range((int)j.text.size() + 1));
        for (int attempt = 0; attempt < 2; attempt++)
        {
          bool threw = false;
          try
          {
            w.robot->load_collision_pairs(path);
          }
          catch (std::exception&)
          {
            threw = true;
          }
          bool fired = io::disarm();
          if (fired)
            ctx.fault(ev.fault);
          bool ok = j.valid && !missing;
          bool hurt = fired && !benign;
          if (ok && !hurt)
            ctx.check(!threw, "spurious-failure", "load_collision_pairs() of a valid file failed" + (fired ? " (" + ev.fault + ")" : ""));
          if (!ok)
            ctx.check(threw, "bad-pairs", "load_collision_pairs() accepted " + (missing ? std::string("a missing file") : j.text));
          if (!threw)
            w.pairs = j.pairs;
          else
            ctx.hit("failed-pairs");
          check_pairs(w, ctx, threw ? "pairs-lost" : "pairs", threw ? "after a failed load_collision_pairs()" : "after load_collision_pairs()");
          ctx.check(io::open_files() == 0, "file-leak", "a file stays open after load_collision_pairs()");
          ctx.state(fmt("pairs %s ok%d hurt%d threw%d a%d", ev.fault.c_str(), ok, hurt, threw, attempt));
          if (!threw)
            break;
        }
      }
      else
      {
        Desc d = random_desc(r);
        bool mjcf = ev.kind == "mjcf", content = ev.kind == "content";
        std::string root;
        if (mjcf)
        {
          for (auto& l : d.links)
            l.nvis = 0;
          root = r.pick(std::vector<std::string>{ "root_joint", "root", "" });
          for (auto& j : d.joints)
            if (j.unlimited)
            {
              j.unlimited = false;
              j.hi = 1;
              j.lo = -1;
            }
        }
        std::string text = mjcf ? to_mjcf(d, root) : to_urdf(d), dir = fmt("/simfs/robot%d", serial), file = mjcf ? "robot.xml" : "robot.urdf";
        int flags = 0;
        if (r.chance(0.5))
          flags |= RobotWrapper::COLLISION_AS_VISUAL;
        if (r.chance(0.3))
          flags |= RobotWrapper::IGNORE_COLLISIONS;
        if (mjcf)
          flags |= RobotWrapper::MJCF;
        if (r.chance(0.3) && !content)
          file = mjcf ? "other.xml" : "other.urdf";
        std::string arg = file.compare(0, 5, "robot") ? dir + "/" + file : (r.chance(0.5) ? dir : dir + "/" + file);
        // the reference reads the intact text
        W n;
        auto vis = std::make_unique<pinocchio::GeometryModel>();
        n.geom = std::make_unique<pinocchio::GeometryModel>();
        if (mjcf)
        {
          io::put("/simfs/reference.xml", text);
          pinocchio::mjcf::buildModel("/simfs/reference.xml", pinocchio::JointModelFreeFlyer(), n.m);
          pinocchio::mjcf::buildGeom(n.m, "/simfs/reference.xml", pinocchio::COLLISION, *n.geom);
          pinocchio::mjcf::buildGeom(n.m, "/simfs/reference.xml", (flags & RobotWrapper::COLLISION_AS_VISUAL) ? pinocchio::COLLISION : pinocchio::VISUAL, *vis);
          io::rm("/simfs/reference.xml");
        }
        else
        {
          pinocchio::urdf::buildModelFromXML(text, pinocchio::JointModelFreeFlyer(), n.m);
          std::istringstream s1(text), s2(text);
          pinocchio::urdf::buildGeom(n.m, s1, pinocchio::COLLISION, *n.geom, std::vector<std::string>());
          pinocchio::urdf::buildGeom(n.m, s2, (flags & RobotWrapper::COLLISION_AS_VISUAL) ? pinocchio::COLLISION : pinocchio::VISUAL, *vis, std::vector<std::string>());
        }
        bool with_json = r.chance(0.5) && !content;
        Json_ j;
        n.pairs = all_pairs(*n.geom);
        if (!content)
          io::put(dir + "/" + file, text);
        if (with_json)
        {
          j = random_json(r, n.m, *n.geom);
          io::put(dir + "/collisions.json", j.text);
          n.pairs = j.pairs;
        }
        bool ok = !with_json || j.valid || (flags & RobotWrapper::IGNORE_COLLISIONS);
        if (flags & RobotWrapper::IGNORE_COLLISIONS)
          n.pairs.clear();
        bool on_json = with_json && r.chance(0.4);
        if (fk != io::None && !content && !(on_json && fk == io::StatFails))
        {
          std::string target = on_json ? "collisions.json" : (fk == io::StatFails ? arg : file);
          size_t len = on_json ? j.text.size() : text.size();
          io::arm(fk, target, on_json || fk == io::StatFails ? 1 : r.between(1, 3), fk == io::Short ? r.range(1000) : r.range((int)len + 1));
        }
        for (int attempt = 0; attempt < 2; attempt++)
        {
          bool threw = false;
          std::string what;
          std::unique_ptr<RobotWrapper> robot;
          try
          {
            if (content)
              robot = std::make_unique<RobotWrapper>(r.chance(0.5) ? "" : dir, flags, text);
            else
              robot = std::make_unique<RobotWrapper>(arg, flags);
          }
          catch (std::exception& e)
          {
            threw = true;
            what = e.what();
          }
          bool fired = io::disarm();
          if (fired)
            ctx.fault(ev.fault);
          bool hurt = fired && !benign;
          if (ok && !hurt)
            ctx.checkf(!threw, "spurious-failure", [&] { return "loading a valid robot failed" + (fired ? " (" + ev.fault + ")" : std::string()) + ": " + what; });
          if (!ok)
            ctx.check(threw, "bad-pairs", "a robot was loaded with invalid collision pairs " + j.text);
          ctx.check(io::open_files() == 0, "file-leak", "a file stays open after loading a robot");
          ctx.state(fmt("%s %s ok%d hurt%d threw%d fl%d json%d a%d", ev.kind.c_str(), ev.fault.c_str(), ok, hurt, threw, flags, with_json, attempt));
          if (threw)
          {
            ctx.hit("failed-load");
            continue;
          }
          W x;
          x.robot = std::move(robot);
          x.m = n.m;
          x.geom = std::make_unique<pinocchio::GeometryModel>(*n.geom);
          x.pairs = n.pairs;
          check_robot(x, ctx, d, mjcf, *vis);
          check_pairs(x, ctx, "pairs", "after loading the robot");
          w = std::move(x);
          break;
        }
        // a robot already loaded does not depend on the files any more
        io::rm(dir + "/" + file);
        io::rm(dir + "/collisions.json");
      }
      if (const char* e = mem::error())
        ctx.check(false, "heap", e);
    }
    mem::end();
  }
};
SIM_SCENARIO("io_load", Load);
}  // namespace
