package com.fasterxml.jackson.databind.annotation;
import java.lang.annotation.*;
@Retention(RetentionPolicy.RUNTIME)
@Target({ElementType.ANNOTATION_TYPE, ElementType.TYPE, ElementType.METHOD, ElementType.CONSTRUCTOR, ElementType.FIELD, ElementType.PARAMETER})
public @interface JsonDeserialize {
    @SuppressWarnings("rawtypes") Class<? extends com.fasterxml.jackson.databind.JsonDeserializer> using() default com.fasterxml.jackson.databind.JsonDeserializer.None.class;
    @SuppressWarnings("rawtypes") Class<? extends com.fasterxml.jackson.databind.JsonDeserializer> contentUsing() default com.fasterxml.jackson.databind.JsonDeserializer.None.class;
    Class<?> builder() default Void.class;
}
