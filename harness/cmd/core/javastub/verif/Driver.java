package verif;
import com.fasterxml.jackson.databind.ObjectMapper;
import java.io.*;
import java.lang.annotation.Annotation;
import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import javax.ws.rs.ext.ParamConverterProvider;
// Performs the jobs on the generated classes. Jobs and results have the same form as those of generated Go packages.
public class Driver {
    static final ObjectMapper om = Wire.om;
    static Map<String, Object> result;

    @SuppressWarnings("unchecked")
    public static void main(String[] args) throws Exception {
        Map<String, Object> all = (Map<String, Object>) J.parse(new String(Files.readAllBytes(Paths.get(args[0])), StandardCharsets.UTF_8));
        Map<String, Object> out = new LinkedHashMap<>();
        for (Map.Entry<String, Object> e : all.entrySet()) {
            List<Object> rs = new ArrayList<>();
            for (Object j : (List<Object>) e.getValue()) {
                result = new LinkedHashMap<>();
                try { run(e.getKey(), (Map<String, Object>) j); } catch (Fault f) { result.put("Panic", f.getMessage()); } catch (Throwable t) { StringWriter w = new StringWriter(); t.printStackTrace(new PrintWriter(w)); result.put("Panic", "driver: " + w); }
                rs.add(result);
            }
            out.put(e.getKey(), rs);
        }
        Files.write(Paths.get(args[1]), J.text(out).getBytes(StandardCharsets.UTF_8));
    }
    static class Fault extends Exception { Fault(String m) { super(m); } }

    static String str(Map<String, Object> j, String k) { Object o = j.get(k); return o == null ? "" : o.toString(); }
    static String uncap(String s) { return s.substring(0, 1).toLowerCase() + s.substring(1); }
    static String cap(String s) { return s.substring(0, 1).toUpperCase() + s.substring(1); }
    static Class<?> cls(String pkg, String name) throws Fault { try { return Class.forName(pkg + "." + name); } catch (ClassNotFoundException e) { throw new Fault("there is no class " + pkg + "." + name); } }

    static void run(String pkg, Map<String, Object> j) throws Throwable {
        switch (str(j, "Kind")) {
        case "fields": fields(cls(pkg + ".model", str(j, "Type"))); break;
        case "json": json(cls(pkg + ".model", str(j, "Type")), j.get("Value")); break;
        case "text": {
            Object o;
            try { o = om.read(j.get("Value"), cls(pkg + ".model", str(j, "Type")), null, null); } catch (IOException e) { result.put("Err", "" + e); return; }
            result.put("Out", o.toString()); break;
        }
        case "raw": case "call": service(pkg, j); break;
        case "main": {
            Class<?> m = cls(pkg, "Main");
            Method s = null;
            for (Method x : m.getMethods()) if (x.getName().equals("startServer")) s = x;
            if (s == null) throw new Fault("no startServer");
            Object[] as = new Object[s.getParameterCount()];
            Object server = s.invoke(null, as);
            result.put("Out", "" + ((org.eclipse.jetty.server.Server) server).started + " " + org.glassfish.jersey.jetty.JettyHttpContainerFactory.last.classes.get(0).getSimpleName());
            break;
        }
        default: throw new Error("unknown job " + j);
        }
    }

    static String typeName(Type t) {
        if (t instanceof ParameterizedType) {
            StringBuilder b = new StringBuilder(typeName(((ParameterizedType) t).getRawType())); String sep = "<";
            for (Type a : ((ParameterizedType) t).getActualTypeArguments()) { b.append(sep).append(typeName(a)); sep = ","; }
            return b + ">";
        }
        return t instanceof Class ? ((Class<?>) t).getSimpleName() : t.toString();
    }
    // annotations that say something about values, with their members
    static String annotations(AnnotatedElement... es) throws ReflectiveOperationException {
        Set<String> out = new TreeSet<>();
        for (AnnotatedElement e : es) if (e != null) for (Annotation a : e.getAnnotations()) {
            if (!a.annotationType().getName().startsWith("javax.validation")) continue;
            StringBuilder b = new StringBuilder(a.annotationType().getSimpleName());
            Method[] ms = a.annotationType().getDeclaredMethods();
            Arrays.sort(ms, Comparator.comparing(Method::getName));
            for (Method m : ms) if (!m.getName().equals("message") && !Objects.equals(m.invoke(a), m.getDefaultValue())) b.append(" ").append(m.getName()).append("=").append(m.invoke(a));
            out.add(b.toString());
        }
        return String.join("\n", out);
    }
    static void fields(Class<?> c) throws Exception {
        List<Object> fs = new ArrayList<>();
        result.put("Out", (c.isEnum() ? "enum" : Throwable.class.isAssignableFrom(c) ? "exception" : c.isInterface() ? "interface" : "class"));
        if (c.isEnum()) {
            for (Object o : c.getEnumConstants()) { Map<String, Object> f = new LinkedHashMap<>(); f.put("Name", ((Enum<?>) o).name()); f.put("Tag", o.toString()); fs.add(f); }
        } else {
            // in the order of declaration
            Map<String, ObjectMapper.Prop> ps = new HashMap<>();
            for (ObjectMapper.Prop p : ObjectMapper.properties(c)) ps.put(p.name, p);
            List<String> order = new ArrayList<>();
            for (Field f : c.getDeclaredFields()) if (ps.containsKey(f.getName())) order.add(f.getName());
            for (String n : new TreeSet<>(ps.keySet())) if (!order.contains(n)) order.add(n);
            for (String n : order) {
                ObjectMapper.Prop p = ps.get(n);
                Map<String, Object> f = new LinkedHashMap<>();
                f.put("Name", n);
                f.put("Type", typeName(p.getter != null ? p.getter.getGenericReturnType() : p.field.getGenericType()));
                f.put("Tag", annotations(p.field, p.getter));
                fs.add(f);
            }
        }
        result.put("Fields", fs);
    }
    static String encode(Object o) throws IOException { return om.writeValueAsString(o); }

    static void json(Class<?> c, Object v) throws Throwable {
        Object o;
        try { o = om.read(v, c, null, null); } catch (IOException e) { result.put("Err", "" + e); return; }
        String s;
        try { s = encode(o); } catch (IOException e) { result.put("Err", "encoding: " + e); return; }
        result.put("Out", s);
        try { members(c, o, s); } catch (InvocationTargetException e) { throw new Fault("" + e.getCause()); }
    }
    // the members other than those JSON binding uses agree with it
    static void members(Class<?> c, Object o, String s) throws Throwable {
        if (c.isEnum()) {
            Object back = c.getMethod("fromString", String.class).invoke(null, o.toString());
            if (back != o) throw new Fault("fromString(" + o + ") is " + back);
            return;
        }
        Method tb = null;
        for (Method m : c.getMethods()) if (m.getName().equals("toBuilder") && m.getParameterCount() == 0) tb = m;
        if (tb != null) {
            Object b = tb.invoke(o);
            Object o2 = b.getClass().getMethod("build").invoke(b);
            if (!encode(o2).equals(s)) throw new Fault("toBuilder().build() is " + encode(o2) + ", not " + s);
            Object b3 = c.getMethod("builder").invoke(null);
            if (b3.getClass() != b.getClass()) throw new Fault("builder() is a " + b3.getClass());
        }
        // a constructor with one argument per declared field, in order
        List<Field> fs = new ArrayList<>();
        for (Field f : c.getDeclaredFields()) if (!Modifier.isStatic(f.getModifiers())) { f.setAccessible(true); fs.add(f); }
        if (tb != null && !fs.isEmpty()) {
            Class<?>[] ts = new Class<?>[fs.size()]; Object[] as = new Object[fs.size()];
            for (int i = 0; i < ts.length; i++) { ts[i] = fs.get(i).getType(); as[i] = fs.get(i).get(o); }
            Constructor<?> k;
            try { k = c.getConstructor(ts); } catch (NoSuchMethodException e) { throw new Fault("no constructor with the fields as arguments in " + c); }
            String t = encode(k.newInstance(as));
            if (!t.equals(s)) throw new Fault("the constructor gives " + t + ", not " + s);
        }
        // fluid setters
        boolean union = false;
        for (Field f : fs) union |= f.getName().equals("variant") && f.getType().isEnum() && f.getType().getEnclosingClass() == c;
        if (union) {
            Object variant = c.getField("variant").get(o);
            int set = 0;
            for (Field f : fs) if (!f.getName().equals("variant") && f.get(o) != null) {
                set++;
                if (variant == null || !((Enum<?>) variant).name().equals(f.getName())) throw new Fault("variant is " + variant + " in " + s);
                Method of = c.getMethod("of" + cap(f.getName()), f.getType());
                if (!encode(of.invoke(null, f.get(o))).equals(s)) throw new Fault("of" + cap(f.getName()) + " gives " + encode(of.invoke(null, f.get(o))) + ", not " + s);
            }
            if (set != 1) throw new Fault(set + " variants are set in " + s);
        } else if (tb == null && !fs.isEmpty() && Modifier.isPublic(fs.get(0).getModifiers()) && !Modifier.isFinal(fs.get(0).getModifiers())) {
            Object o2 = c.getConstructor().newInstance();
            for (Field f : fs) {
                Object r = c.getMethod(f.getName(), f.getType()).invoke(o2, f.get(o));
                if (r != o2) throw new Fault("the setter " + f.getName() + " returns another object");
            }
            if (!encode(o2).equals(s)) throw new Fault("the setters give " + encode(o2) + ", not " + s);
        }
    }

    static String loadedResource = "";
    @SuppressWarnings("unchecked")
    static void service(String pkg, Map<String, Object> j) throws Throwable {
        String model = pkg + ".model";
        Class<?> iface = cls(model, "Svc");
        List<Object> impl = new ArrayList<>();
        String answer = str(j, "Answer");
        InvocationHandler h = (proxy, m, as) -> {
            if (m.getDeclaringClass() == Object.class) return m.getName().equals("toString") ? "impl" : m.getName().equals("hashCode") ? (Object) 1 : false;
            Map<String, Object> x = new LinkedHashMap<>();
            x.put("Action", m.getName());
            x.put("Req", encode(as[0]));
            impl.add(x);
            if (answer.equals("ok")) return om.read(j.get("Result"), m.getReturnType(), null, null);
            if (answer.isEmpty()) throw new RuntimeException("failing as told");
            Object e = om.read(j.get("Result"), cls(model, answer), null, null);
            if (e instanceof RuntimeException) throw (RuntimeException) e;
            Class<?> se = cls(model, "ServiceException");
            Object s = se.getConstructor().newInstance();
            throw (RuntimeException) se.getMethod("entity", Object.class).invoke(s, e);
        };
        Object hook = Proxy.newProxyInstance(iface.getClassLoader(), new Class<?>[]{iface}, h);
        Class<?> rc = cls(pkg + ".server", "SvcResources");
        Object res = rc.getConstructor().newInstance();
        boolean injected = false;
        for (Field f : rc.getDeclaredFields()) if (f.isAnnotationPresent(javax.inject.Inject.class) && f.getType() == iface) { f.setAccessible(true); f.set(res, hook); injected = true; }
        if (!injected) throw new Fault("the resources have no injected " + iface);
        Wire.resource = res;
        Wire.seen = new ArrayList<>();
        Wire.converters = new ArrayList<>();
        try {
            Class<?> p = Class.forName(model + ".Util$InstantConverterProvider");
            Wire.converters.add((ParamConverterProvider) p.getConstructor().newInstance());
        } catch (ClassNotFoundException e) { }
        if (str(j, "Kind").equals("raw")) {
            Map<String, List<String>> hs = new LinkedHashMap<>();
            if (j.get("Header") != null) for (Map.Entry<String, Object> e : ((Map<String, Object>) j.get("Header")).entrySet()) hs.put(e.getKey(), Collections.singletonList(e.getValue().toString()));
            javax.ws.rs.core.Response r = Wire.serve(str(j, "Method"), str(j, "URL"), hs, str(j, "Body"));
            record(r);
        } else {
            String a = str(j, "Action");
            Object req;
            try { req = om.read(j.get("Value"), cls(model, cap(a) + "Request"), null, null); } catch (IOException e) { throw new Fault("decoding the request: " + e); }
            Class<?> cc = cls(pkg + ".client", "ClientConfig");
            Object conf = Proxy.newProxyInstance(cc.getClassLoader(), new Class<?>[]{cc}, (p, m, as) -> "http://host/base");
            // the resources are served under the base path of the client's configuration
            Object client = cls(pkg + ".client", "SvcClient").getConstructor(cc).newInstance(conf);
            if (!iface.isInstance(client)) throw new Fault("the client is not a " + iface);
            try {
                Object out = iface.getMethod(uncap(a), req.getClass()).invoke(client, req);
                result.put("Out", out == null ? "{}" : encode(out));
            } catch (InvocationTargetException e) {
                Throwable t = e.getCause();
                result.put("Err", "" + t);
                Object x = t;
                if (t.getClass().getSimpleName().equals("ServiceException") && t.getClass().getField("entity").get(t) != null) x = t.getClass().getField("entity").get(t);
                if (x.getClass().getName().startsWith(model)) { result.put("ErrType", x.getClass().getSimpleName()); result.put("Body", encode(x)); }
            }
            result.put("Seen", Wire.seen);
        }
        result.put("Impl", impl);
    }
    static void record(javax.ws.rs.core.Response r) {
        result.put("Status", r.getStatus());
        result.put("Body", r.wire);
        Map<String, Object> hs = new LinkedHashMap<>();
        for (Map.Entry<String, List<Object>> e : r.headers.entrySet()) { List<String> l = new ArrayList<>(); for (Object o : e.getValue()) l.add(Wire.headerText(o)); hs.put(Wire.canonical(e.getKey()), l); }
        result.put("Header", hs);
    }
}
