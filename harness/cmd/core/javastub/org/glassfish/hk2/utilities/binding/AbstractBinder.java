package org.glassfish.hk2.utilities.binding;
import java.util.*;
public abstract class AbstractBinder {
    public final Map<Class<?>, Object> bound = new HashMap<>();
    protected abstract void configure();
    public void run() { configure(); }
    public class To<T> { final Object o; To(Object o) { this.o = o; } public To<T> to(Class<? super T> c) { bound.put(c, o); return this; } }
    public <T> To<T> bind(Class<T> c) { return new To<T>(c); }
    public <T> To<T> bind(T o) { return new To<T>(o); }
}
