package com.fasterxml.jackson.databind;
import com.fasterxml.jackson.annotation.*;
import com.fasterxml.jackson.core.*;
import com.fasterxml.jackson.databind.annotation.*;
import java.io.IOException;
import java.lang.reflect.*;
import java.math.BigDecimal;
import java.util.*;
import verif.J;
// A small data binder with Jackson's documented rules for the annotations that generated code uses: properties are
// public fields and getters; builders, creators, values, inclusion, custom (de)serializers; java.time is not supported
// without a custom (de)serializer; unknown properties are errors unless configured otherwise.
public class ObjectMapper {
    boolean failUnknown = true;
    public ObjectMapper setDefaultPropertyInclusion(JsonInclude.Value v) { return this; }
    public ObjectMapper setSerializationInclusion(JsonInclude.Include v) { return this; }
    public ObjectMapper configure(DeserializationFeature f, boolean on) { if (f == DeserializationFeature.FAIL_ON_UNKNOWN_PROPERTIES) failUnknown = on; return this; }
    public ObjectMapper configure(SerializationFeature f, boolean on) { return this; }
    public ObjectMapper enable(SerializationFeature f) { return this; }
    public ObjectMapper disable(DeserializationFeature f) { return configure(f, false); }
    public ObjectReader readerFor(Class<?> c) { return new ObjectReader(this, c); }
    public ObjectWriter writerWithView(Class<?> c) { return new ObjectWriter(this); }
    public ObjectWriter writer() { return new ObjectWriter(this); }
    public ObjectWriter writerWithDefaultPrettyPrinter() { return new ObjectWriter(this); }
    @SuppressWarnings("unchecked")
    public <T> T readValue(String s, Class<T> c) throws IOException { return (T) read(J.parse(s), c, null, null); }
    public String writeValueAsString(Object o) throws JsonProcessingException {
        StringBuilder b = new StringBuilder();
        try { write(b, o); } catch (JsonProcessingException e) { throw e; } catch (IOException e) { throw new JsonProcessingException(e.toString()); }
        return b.toString();
    }

    static JsonProcessingException fail(String m) { return new JsonProcessingException(m); }
    static Object make(Class<?> c) throws IOException {
        try { Constructor<?> k = c.getDeclaredConstructor(); k.setAccessible(true); return k.newInstance(); } catch (ReflectiveOperationException e) { throw fail("cannot create " + c + ": " + e); }
    }
    static Object call(Callable f) throws IOException {
        try { return f.call(); } catch (InvocationTargetException e) { throw fail("" + e.getCause()); } catch (ReflectiveOperationException e) { throw fail("" + e); } catch (IllegalArgumentException e) { throw fail("" + e); }
    }
    interface Callable { Object call() throws ReflectiveOperationException; }

    // ---- writing
    public void write(StringBuilder b, Object o) throws IOException { write(b, o, null, null); }
    @SuppressWarnings({"unchecked", "rawtypes"})
    void write(StringBuilder b, Object o, Class<? extends JsonSerializer> using, Class<? extends JsonSerializer> content) throws IOException {
        if (o == null) { b.append("null"); return; }
        if (using != null && using != JsonSerializer.None.class) { ((JsonSerializer) make(using)).serialize(o, new JsonGenerator(b, this), new SerializerProvider()); return; }
        Class<?> c = o.getClass();
        JsonSerialize cs = c.getAnnotation(JsonSerialize.class);
        if (cs != null && cs.using() != JsonSerializer.None.class) { write(b, o, cs.using(), null); return; }
        if (o instanceof String || o instanceof Character || o instanceof UUID) { J.quote(b, o.toString()); return; }
        if (o instanceof Boolean || o instanceof Number) {
            if (o instanceof Double && !Double.isFinite((Double) o) || o instanceof Float && !Float.isFinite((Float) o)) J.quote(b, o.toString()); else b.append(o);
            return;
        }
        if (o instanceof byte[]) { J.quote(b, Base64.getEncoder().encodeToString((byte[]) o)); return; }
        if (o instanceof Map) {
            b.append('{'); String sep = "";
            for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) {
                b.append(sep); sep = ",";
                Object k = e.getKey(); Method v = k == null ? null : valueMethod(k.getClass());
                J.quote(b, v != null ? String.valueOf(call(() -> v.invoke(k))) : k instanceof Enum ? ((Enum<?>) k).name() : String.valueOf(k));
                b.append(':'); write(b, e.getValue(), content, null);
            }
            b.append('}'); return;
        }
        if (o instanceof Collection || o instanceof Object[]) {
            b.append('['); String sep = "";
            for (Object x : o instanceof Collection ? (Collection<?>) o : Arrays.asList((Object[]) o)) { b.append(sep); sep = ","; write(b, x, content, null); }
            b.append(']'); return;
        }
        Method v = valueMethod(c);
        if (v != null) { write(b, call(() -> v.invoke(o))); return; }
        if (o instanceof Enum) { J.quote(b, ((Enum<?>) o).name()); return; }
        if (c.getName().startsWith("java.")) throw fail("type `" + c.getName() + "` not supported by default");
        b.append('{'); String sep = "";
        for (Prop p : properties(c)) {
            Object x = call(() -> p.getter != null ? p.getter.invoke(o) : p.field.get(o));
            JsonInclude inc = p.anno(JsonInclude.class);
            if (inc == null) inc = c.getAnnotation(JsonInclude.class);
            if (inc != null) {
                JsonInclude.Include i = inc.value();
                if (x == null && i != JsonInclude.Include.ALWAYS && i != JsonInclude.Include.USE_DEFAULTS) continue;
                if (i == JsonInclude.Include.NON_EMPTY && (x instanceof String && ((String) x).isEmpty() || x instanceof Collection && ((Collection<?>) x).isEmpty() || x instanceof Map && ((Map<?, ?>) x).isEmpty() || x instanceof byte[] && ((byte[]) x).length == 0)) continue;
                if (i == JsonInclude.Include.NON_DEFAULT && (x == null || x instanceof Number && ((Number) x).doubleValue() == 0 || Boolean.FALSE.equals(x) || "".equals(x))) continue;
            }
            b.append(sep); sep = ",";
            J.quote(b, p.name); b.append(':');
            JsonSerialize s = p.anno(JsonSerialize.class);
            if (s == null) write(b, x); else write(b, x, s.using(), s.contentUsing() == JsonSerializer.None.class ? null : s.contentUsing());
        }
        b.append('}');
    }
    static Method valueMethod(Class<?> c) {
        if (c.isAnonymousClass()) c = c.getSuperclass();
        for (Method m : c.getMethods()) { JsonValue v = m.getAnnotation(JsonValue.class); if (v != null && v.value()) { m.setAccessible(true); return m; } }
        return null;
    }
    public static class Prop {
        public String name; public Field field; public Method getter;
        <A extends java.lang.annotation.Annotation> A anno(Class<A> a) {
            A x = getter == null ? null : getter.getAnnotation(a);
            return x != null ? x : field == null ? null : field.getAnnotation(a);
        }
    }
    static String mangle(String s) { // getURL is the property url
        StringBuilder b = new StringBuilder(s);
        for (int i = 0; i < b.length() && Character.isUpperCase(b.charAt(i)); i++) b.setCharAt(i, Character.toLowerCase(b.charAt(i)));
        return b.toString();
    }
    static Field[] fieldsOf(Class<?> c) {
        List<Field> l = new ArrayList<>();
        for (Class<?> k = c; k != null && k != Object.class && k != Throwable.class; k = k.getSuperclass()) l.addAll(0, Arrays.asList(k.getDeclaredFields()));
        return l.toArray(new Field[0]);
    }
    public static List<Prop> properties(Class<?> c) throws IOException {
        Map<String, Prop> m = new LinkedHashMap<>();
        for (Field f : fieldsOf(c)) {
            if (Modifier.isStatic(f.getModifiers()) || Modifier.isTransient(f.getModifiers())) continue;
            Prop p = new Prop(); p.field = f; JsonProperty jp = f.getAnnotation(JsonProperty.class);
            p.name = jp != null && !jp.value().isEmpty() ? jp.value() : f.getName();
            m.put(p.name, p);
        }
        List<Method> ms = new ArrayList<>(Arrays.asList(c.getMethods()));
        ms.sort(Comparator.comparing(Method::getName));
        for (Method g : ms) {
            if (Modifier.isStatic(g.getModifiers()) || g.getParameterCount() != 0 || g.getDeclaringClass() == Object.class || g.isBridge()) continue;
            String n = g.getName(); JsonProperty jp = g.getAnnotation(JsonProperty.class);
            if (jp != null) n = jp.value().isEmpty() ? n : jp.value();
            else if (n.startsWith("get") && n.length() > 3 && g.getReturnType() != void.class) n = mangle(n.substring(3));
            else if (n.startsWith("is") && n.length() > 2 && (g.getReturnType() == boolean.class || g.getReturnType() == Boolean.class)) n = mangle(n.substring(2));
            else continue;
            g.setAccessible(true);
            m.computeIfAbsent(n, k -> new Prop()).getter = g;
            m.get(n).name = n;
        }
        Set<String> ignore = new HashSet<>();
        JsonIgnoreProperties ip = c.getAnnotation(JsonIgnoreProperties.class);
        if (ip != null) ignore.addAll(Arrays.asList(ip.value()));
        List<Prop> out = new ArrayList<>();
        for (Prop p : m.values()) {
            if (p.getter == null && !Modifier.isPublic(p.field.getModifiers()) && p.field.getAnnotation(JsonProperty.class) == null) continue;
            if (p.field != null) p.field.setAccessible(true);
            JsonIgnore ig = p.anno(JsonIgnore.class);
            if (ig != null && ig.value() || ignore.contains(p.name)) continue;
            out.add(p);
        }
        return out;
    }

    // ---- reading
    @SuppressWarnings({"unchecked", "rawtypes"})
    public Object read(Object n, Type t, Class<? extends JsonDeserializer> using, Class<? extends JsonDeserializer> content) throws IOException {
        if (using != null && using != JsonDeserializer.None.class) return n == null ? null : ((JsonDeserializer) make(using)).deserialize(new JsonParser(n, this), new DeserializationContext());
        if (t instanceof WildcardType) t = ((WildcardType) t).getUpperBounds()[0];
        Type[] args = t instanceof ParameterizedType ? ((ParameterizedType) t).getActualTypeArguments() : null;
        Class<?> c = (Class<?>) (t instanceof ParameterizedType ? ((ParameterizedType) t).getRawType() : t);
        if (n == null) {
            if (c == boolean.class) return false;
            if (c == int.class) return 0;
            if (c == long.class) return 0L;
            if (c == short.class) return (short) 0;
            if (c == byte.class) return (byte) 0;
            if (c == double.class) return 0d;
            if (c == float.class) return 0f;
            return null;
        }
        JsonDeserialize cd = c.getAnnotation(JsonDeserialize.class);
        if (cd != null && cd.using() != JsonDeserializer.None.class) return read(n, t, cd.using(), null);
        if (c == Object.class) return untyped(n);
        if (List.class == c || Collection.class == c || ArrayList.class == c) {
            if (!(n instanceof List)) throw fail("cannot read " + t + " from " + J.text(n));
            List<Object> l = new ArrayList<>();
            for (Object x : (List<?>) n) l.add(read(x, args == null ? Object.class : args[0], content, null));
            return l;
        }
        if (Map.class == c || HashMap.class == c || LinkedHashMap.class == c) {
            if (!(n instanceof Map)) throw fail("cannot read " + t + " from " + J.text(n));
            Map<Object, Object> m = new LinkedHashMap<>();
            for (Map.Entry<?, ?> e : ((Map<?, ?>) n).entrySet()) m.put(args == null ? e.getKey() : key((String) e.getKey(), args[0]), read(e.getValue(), args == null ? Object.class : args[1], content, null));
            return m;
        }
        if (n instanceof Map && (c.isPrimitive() || c.getName().startsWith("java."))) throw fail("cannot read " + t + " from " + J.text(n));
        if (n instanceof List) throw fail("cannot read " + t + " from " + J.text(n));
        if (c == String.class) return n.toString();
        if (c == boolean.class || c == Boolean.class) { if (n instanceof Boolean) return n; throw fail("not a boolean: " + J.text(n)); }
        if (c.isPrimitive() || Number.class.isAssignableFrom(c)) {
            if (!(n instanceof J.Num) && !(n instanceof String)) throw fail("not a number: " + J.text(n));
            String s = n.toString();
            try {
                if (c == BigDecimal.class) return new BigDecimal(s);
                if (c == double.class || c == Double.class) return Double.valueOf(s);
                if (c == float.class || c == Float.class) return Float.valueOf(s);
                BigDecimal d = new BigDecimal(s);
                if (c == java.math.BigInteger.class) return d.toBigInteger();
                if (c == int.class || c == Integer.class) return d.intValueExact();
                if (c == long.class || c == Long.class) return d.longValueExact();
                if (c == short.class || c == Short.class) return d.shortValueExact();
                if (c == byte.class || c == Byte.class) return d.byteValueExact();
            } catch (ArithmeticException | NumberFormatException e) { throw fail(c + ": " + s + ": " + e); }
        }
        if (c == UUID.class) { try { return UUID.fromString(n.toString()); } catch (IllegalArgumentException e) { throw fail("" + e); } }
        if (c == byte[].class) { try { return Base64.getDecoder().decode(n.toString()); } catch (IllegalArgumentException e) { throw fail("" + e); } }
        if (c.getName().startsWith("java.")) throw fail("type `" + c.getName() + "` not supported by default");
        return bean(n, c);
    }
    Object key(String k, Type t) throws IOException {
        if (t == String.class || t == Object.class) return k;
        Class<?> c = (Class<?>) t;
        if (c == Integer.class) return Integer.valueOf(k);
        if (c == Long.class) return Long.valueOf(k);
        if (c == Short.class) return Short.valueOf(k);
        if (c == Byte.class) return Byte.valueOf(k);
        if (c == Double.class) return Double.valueOf(k);
        if (c == Float.class) return Float.valueOf(k);
        if (c == Boolean.class) return Boolean.valueOf(k);
        if (c == UUID.class) return UUID.fromString(k);
        if (c.getName().startsWith("java.")) throw fail("no key reader for " + c);
        return bean(k, c);
    }
    static Object untyped(Object n) {
        if (n instanceof J.Num) {
            String s = n.toString();
            try { return Integer.valueOf(s); } catch (NumberFormatException e) { try { return Long.valueOf(s); } catch (NumberFormatException f) { return s.matches("-?[0-9]+") ? (Object) new java.math.BigInteger(s) : Double.valueOf(s); } }
        }
        if (n instanceof List) { List<Object> l = new ArrayList<>(); for (Object x : (List<?>) n) l.add(untyped(x)); return l; }
        if (n instanceof Map) { Map<Object, Object> m = new LinkedHashMap<>(); for (Map.Entry<?, ?> e : ((Map<?, ?>) n).entrySet()) m.put(e.getKey(), untyped(e.getValue())); return m; }
        return n;
    }
    @SuppressWarnings({"unchecked", "rawtypes"})
    Object bean(Object n, Class<?> c) throws IOException {
        // creators
        for (Method m : c.getDeclaredMethods())
            if (m.isAnnotationPresent(JsonCreator.class) && Modifier.isStatic(m.getModifiers()) && m.getParameterCount() == 1 && m.getParameterAnnotations()[0].length == 0) {
                m.setAccessible(true);
                Object a = read(n, m.getGenericParameterTypes()[0], null, null);
                return call(() -> m.invoke(null, a));
            }
        for (Constructor<?> k : c.getDeclaredConstructors())
            if (k.isAnnotationPresent(JsonCreator.class)) {
                k.setAccessible(true);
                Parameter[] ps = k.getParameters();
                boolean props = ps.length != 1;
                for (Parameter p : ps) props |= p.isAnnotationPresent(JsonProperty.class);
                if (!props) {
                    Object a = read(n, k.getGenericParameterTypes()[0], null, null);
                    return call(() -> k.newInstance(a));
                }
                if (!(n instanceof Map)) throw fail("cannot read " + c + " from " + J.text(n));
                Map<String, Object> m = new LinkedHashMap<>((Map<String, Object>) n);
                Object[] as = new Object[ps.length];
                for (int i = 0; i < ps.length; i++) {
                    JsonProperty jp = ps[i].getAnnotation(JsonProperty.class);
                    if (jp == null) throw fail("creator argument without a name in " + c);
                    JsonDeserialize d = ps[i].getAnnotation(JsonDeserialize.class);
                    if (d == null) // annotations of the property's field and of its argument are merged
                        for (Prop p : properties(c)) if (p.name.equals(jp.value())) d = p.anno(JsonDeserialize.class);
                    as[i] = read(m.remove(jp.value()), ps[i].getParameterizedType(), d == null ? null : d.using(), d == null ? null : d.contentUsing());
                }
                if (!m.isEmpty() && failUnknown) throw fail("unrecognized properties " + m.keySet() + " in " + c);
                return call(() -> k.newInstance(as));
            }
        if (c.isEnum()) {
            for (Object e : c.getEnumConstants()) { Method v = valueMethod(c); if ((v != null ? String.valueOf(call(() -> v.invoke(e))) : ((Enum<?>) e).name()).equals(n)) return e; }
            throw fail("no constant " + n + " in " + c);
        }
        if (!(n instanceof Map)) {
            if (n instanceof String) // a single-string constructor
                try { Constructor<?> k = c.getConstructor(String.class); return call(() -> k.newInstance(n)); } catch (NoSuchMethodException e) { }
            throw fail("cannot read " + c + " from " + J.text(n));
        }
        JsonDeserialize cd = c.getAnnotation(JsonDeserialize.class);
        Class<?> target = c; String prefix = null; String build = null;
        if (cd != null && cd.builder() != Void.class) {
            target = cd.builder(); JsonPOJOBuilder pb = target.getAnnotation(JsonPOJOBuilder.class);
            prefix = pb == null ? "with" : pb.withPrefix(); build = pb == null ? "build" : pb.buildMethodName();
        }
        Set<String> ignore = new HashSet<>(); boolean any = false;
        for (Class<?> k : new Class<?>[]{c, target}) { JsonIgnoreProperties ip = k.getAnnotation(JsonIgnoreProperties.class); if (ip != null) { ignore.addAll(Arrays.asList(ip.value())); any |= ip.ignoreUnknown(); } }
        if (Modifier.isAbstract(target.getModifiers())) throw fail(target + " is abstract");
        boolean hasNoArg = false;
        for (Constructor<?> k : target.getDeclaredConstructors()) hasNoArg |= k.getParameterCount() == 0;
        if (!hasNoArg) throw fail("no default constructor in " + target);
        Object o = make(target);
        next:
        for (Map.Entry<String, Object> e : ((Map<String, Object>) n).entrySet()) {
            String name = e.getKey();
            if (ignore.contains(name)) continue;
            Field f = null;
            for (Field x : fieldsOf(target)) { JsonProperty jp = x.getAnnotation(JsonProperty.class); if (!Modifier.isStatic(x.getModifiers()) && (jp != null && !jp.value().isEmpty() ? jp.value() : x.getName()).equals(name)) f = x; }
            for (Method m : target.getMethods()) {
                if (m.getParameterCount() != 1 || Modifier.isStatic(m.getModifiers())) continue;
                JsonProperty jp = m.getAnnotation(JsonProperty.class);
                String mn = m.getName(); boolean hit;
                if (jp != null && !jp.value().isEmpty()) hit = jp.value().equals(name);
                else if (prefix != null) hit = mn.startsWith(prefix) && (prefix.isEmpty() ? mn : mangle(mn.substring(prefix.length()))).equals(name);
                else hit = mn.startsWith("set") && mn.length() > 3 && mangle(mn.substring(3)).equals(name);
                if (!hit) continue;
                JsonDeserialize d = m.getAnnotation(JsonDeserialize.class);
                if (d == null && f != null) d = f.getAnnotation(JsonDeserialize.class);
                m.setAccessible(true);
                Object v = read(e.getValue(), m.getGenericParameterTypes()[0], d == null ? null : d.using(), d == null ? null : d.contentUsing());
                final Object oo = o;
                Object r = call(() -> m.invoke(oo, v));
                if (prefix != null && r != null) o = r;
                continue next;
            }
            if (f != null && (Modifier.isPublic(f.getModifiers()) && !Modifier.isFinal(f.getModifiers()) || f.isAnnotationPresent(JsonProperty.class))) {
                JsonDeserialize d = f.getAnnotation(JsonDeserialize.class);
                f.setAccessible(true);
                Object v = read(e.getValue(), f.getGenericType(), d == null ? null : d.using(), d == null ? null : d.contentUsing());
                final Field ff = f; final Object oo = o;
                call(() -> { ff.set(oo, v); return null; });
                continue;
            }
            if (failUnknown && !any) throw fail("unrecognized property " + name + " in " + c);
        }
        if (build != null) {
            final Object oo = o; final Class<?> tt = target; final String bb = build;
            return call(() -> { Method m = tt.getMethod(bb); m.setAccessible(true); return m.invoke(oo); });
        }
        return o;
    }
}
